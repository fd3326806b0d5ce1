"""Transfer functions for library calls (numpy / jax.numpy / jax / mpi4py / functools / builtins).

Each handler maps abstract values to abstract values.  Functions that are not listed
yield an atom marked unknown, so that they can only ever lead to UNDECIDED."""
import ast
import itertools
from fractions import Fraction

from . import nf, evalnf
from . import tensor as T
from .nf import *
from .tensor import Tensor, Unsupported, ShapeError, scalar, num, opaque, elementwise, axis_dims, unify_axis
from .interp import (V, Const, NONE, Tup, Ref, SliceV, Fn, Lib, ModV, ClsV, Partial, BoundM, Mapped, Choice, PyFn, StubObj,
                     Comp, Hole, Tree, ConcatVec, AtV, AtIdx, CondSeg, RangeV, ZipV, EnumV, ItemsV, SymSeq, SeqB, UNDEF, UndefT,
                     Unknown, Raised, dict_key, undict_key, unknown_atom, Super, canon_lib)

LIB = {}
RK = var(Dim.named("rank"))          # hidden index of the MPI process
evalnf.RANK = RK


def lib(*names):
    def deco(f):
        for n in names:
            LIB[n] = f
        return f
    return deco


BENIGN = {"precision", "preferred_element_type", "device", "backend", "donate_argnums", "donate_argnames", "inline", "keep_unused", "unroll", "file", "flush", "sep", "end",
          "copy", "indices_are_sorted", "unique_indices", "stacklevel", "static_argnums", "static_argnames", "devices", "ndmin", "hermitian", "exist_ok", "category"}
ANYKW = {"functools.partial", "jax.tree_util.Partial", "tree.Partial", "dict", "math.isclose", "np.isclose", "np.empty_like", "print", "jax.jit", "np.empty", "open", "np.allclose"}
ACCEPT = {}
TRACE_KW = None


def code_strings(co, out):
    for c in co.co_consts:
        if isinstance(c, str):
            out.add(c)
        elif isinstance(c, tuple):
            out.update(x for x in c if isinstance(x, str))
        elif hasattr(c, "co_consts"):
            code_strings(c, out)


def unread_keywords(h, name, kw):
    """keyword arguments a transfer function does not look at make the result unknown"""
    if not hasattr(h, "__code__") or name in ANYKW:
        return []
    known = ACCEPT.get(h)
    if known is None:
        known = set()
        code_strings(h.__code__, known)
        for g in h.__code__.co_names:       # helpers the handler delegates to
            f = globals().get(g)
            if hasattr(f, "__code__"):
                code_strings(f.__code__, known)
        for c in h.__closure__ or ():
            if hasattr(c.cell_contents, "__code__"):
                code_strings(c.cell_contents.__code__, known)
        ACCEPT[h] = known
    odd = [q for q in kw if q not in known and q not in BENIGN]
    if odd and TRACE_KW is not None:
        TRACE_KW.add((name, tuple(odd)))
    return odd


def arg(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


def is_none(v):
    return v is None or (isinstance(v, Const) and v.val is None)


def tens(I, v):
    return I.num_of(v)


def int_arg(I, v):
    n = I.int_of(v)
    if n is None:
        raise Unknown("integer argument is not a literal")
    return n


def axes_arg(I, v):
    if is_none(v):
        return None
    if isinstance(v, Tup) or (isinstance(v, Ref) and v.kind == "list"):
        its = v.items if isinstance(v, Tup) else I.content(v)
        return [int_arg(I, x) for x in its]
    return int_arg(I, v)


def poly_of(I, v):
    t = tens(I, v)
    if t.axes is not None and t.rank == 0:
        return t.body
    if t.axes is None:
        return t.body
    if all(not a for a in t.axes):
        return t.body
    raise Unknown("scalar expected")


def shape_arg(I, v):
    """-> list of polys"""
    if isinstance(v, Choice):
        raise Unknown("conditional shape")
    if isinstance(v, Tup):
        its = v.items
    elif isinstance(v, Ref) and v.kind == "list":
        its = I.content(v)
    elif isinstance(v, Tensor) and v.axes is not None and v.rank == 1:
        n = v.axis_size(0).int_value()
        if n is None:
            raise Unknown("shape of symbolic rank")
        return [v.index_axis(0, const(i)).body for i in range(n)]
    else:
        if isinstance(v, Tensor) and v.axes is None:
            a = v.body.single_atom()
            if a is not None and a.kind == "fn" and a.name in ("shape", "str+"):
                raise Unknown("shape of an array of unknown rank")
        its = [v]
    out = []
    for x in its:
        if isinstance(x, (Comp, CondSeg)):
            raise Unknown("symbolic shape")
        out.append(poly_of(I, x))
    return out


def make_axes(shape):
    return [() if s.const_value() == CQ1 else (var(Dim.of_size(s)),) for s in shape]


# ---------------------------------------------------------------------------
# dtype
NARROW = {"float32", "complex64", "float16", "bfloat16", "single", "csingle", "half"}
WIDE_F = {"float64", "double", "float", "float_", "longdouble"}
WIDE_C = {"complex128", "complex", "cdouble", "complex_"}
INTS = {"int", "int32", "int64", "uint32", "uint64", "int8", "uint8", "int16", "bool", "bool_", "intp"}


def dtype_name(I, v):
    if v is None or is_none(v):
        return None
    if isinstance(v, Lib):
        return v.name.split(".")[-1]
    if isinstance(v, Const) and isinstance(v.val, str):
        return v.val
    if isinstance(v, Tensor) and not v.axes:
        a = v.body.single_atom()
        if a is not None and a.kind == "fn" and a.name == "dtype":
            return ("of", a)
        if a is not None and a.kind == "fn" and a.name == "lib":
            return str(a.args[0].val).split(".")[-1]
    return ("sym", I.node(v).key)


def cast(I, t, dtn):
    if dtn is None or isinstance(dtn, tuple):
        return t
    if dtn in NARROW:
        c = elementwise(lambda x: fn("narrow", x, K(dtn), props="r" if x.is_real() else "") if x.const_value() is None else x, t)
        return Tensor(c.axes, c.body, t.kind, dtn)
    if dtn in INTS:
        if dtn in ("bool", "bool_"):
            return elementwise(lambda x: x if nf._is_boolean(x) else ONE - ind_eq0(x), t)
        if dtn in ("int8", "uint8", "int16"):
            return t
        return elementwise(lambda x: x if x.is_integer() else fn("trunc", x, props="ir"), t)
    if dtn in WIDE_F:
        r = elementwise(lambda x: x if x.is_real() else real_part(x), t) if not (t.axes is None and t.unk) else t
        return r
    return t


def dt_tag(dtn):
    if isinstance(dtn, str):
        if dtn in NARROW:
            return dtn
        if dtn in INTS:
            return "int"
        if dtn in WIDE_F:
            return "real"
    return None


def real_part(p):
    if p.is_real():
        return p
    return (p + p.conjugate()).scale(CQ(F(1, 2)))


def imag_part(p):
    if p.is_real():
        return ZERO
    return (p - p.conjugate()).scale(CQ(0, F(-1, 2)))


# ---------------------------------------------------------------------------
# element-wise
def ew(name, f, n=1):
    def h(I, a, k):
        ts = [tens(I, x) for x in a[:n]]
        if len(ts) < n:
            raise Unknown("argument of %s passed by keyword" % name)
        return elementwise(f, *ts)
    LIB["np." + name] = h


ew("conj", lambda x: x.conjugate())
ew("conjugate", lambda x: x.conjugate())
ew("real", real_part)
ew("imag", imag_part)
ew("exp", lambda x: fn("exp", x))
ew("log", lambda x: fn("log", x))
ew("log1p", lambda x: fn("log1p", x))
ew("expm1", lambda x: fn("expm1", x))
ew("log2", lambda x: fn("log", x) / fn("log", const(2)))
ew("sqrt", lambda x: x.pow(F(1, 2)))
ew("abs", lambda x: fn("abs", x))
ew("absolute", lambda x: fn("abs", x))
ew("square", lambda x: x * x)
ew("negative", lambda x: -x)
ew("positive", lambda x: x)
ew("cosh", lambda x: fn("cosh", x))
ew("sinh", lambda x: fn("sinh", x))
ew("cos", lambda x: fn("cos", x, props="r" if x.is_real() else ""))
ew("sin", lambda x: fn("sin", x, props="r" if x.is_real() else ""))
ew("tanh", lambda x: fn("tanh", x, props="r" if x.is_real() else ""))
ew("angle", lambda x: fn("angle", x))
ew("signbit", lambda x: ind_lt0(x))
ew("sign", lambda x: fn("sign", x))
ew("floor", lambda x: fn("floor", x))


@lib("np.nan_to_num")
def _nan_to_num(I, a, k):
    """values are finite: replacements for nan, posinf and neginf do not apply"""
    k.get("nan"), k.get("posinf"), k.get("neginf")
    return tens(I, a[0])



ew("isnan", lambda x: fn("isnan", x, props="bi"))
ew("isfinite", lambda x: fn("isfinite", x, props="bi"))
ew("reciprocal", lambda x: x.pow(-1))
ew("multiply", lambda x, y: x * y, 2)
ew("add", lambda x, y: x + y, 2)
ew("subtract", lambda x, y: x - y, 2)
ew("divide", lambda x, y: x / y, 2)
ew("true_divide", lambda x, y: x / y, 2)
ew("maximum", max_of, 2)
ew("minimum", min_of, 2)
ew("power", lambda x, y: fn("pow", x, y), 2)
ew("mod", nf.mod, 2)
ew("remainder", nf.mod, 2)
ew("floor_divide", nf.floordiv, 2)
ew("less", lambda x, y: ind_lt0(x - y), 2)
ew("greater", lambda x, y: ind_lt0(y - x), 2)
ew("equal", lambda x, y: ind_eq0(x - y), 2)
ew("not_equal", lambda x, y: ONE - ind_eq0(x - y), 2)
ew("lcm", lambda x, y: lcm(x, y), 2)
LIB["np.linalg.norm"] = lambda I, a, k: norm(I, a, k)


for _a, _b in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("div", "divide"), ("neg", "negative"), ("exp", "exp"), ("log", "log"), ("conj", "conj"),
               ("real", "real"), ("imag", "imag"), ("sqrt", "sqrt"), ("max", "maximum"), ("min", "minimum"), ("cos", "cos"), ("sin", "sin"), ("tanh", "tanh"),
               ("abs", "abs"), ("square", "square")):
    LIB["jax.lax." + _a] = LIB["np." + _b]


def lcm(x, y):
    a, b = x.int_value(), y.int_value()
    if a is not None and b is not None:
        import math
        return const(a * b // math.gcd(a, b))
    ks = sorted([x, y], key=lambda p: p.key)
    return fn("lcm", *ks, props="ip")


@lib("np.logical_and")
def _land(I, a, k):
    return elementwise(lambda x, y: b01(x) * b01(y), tens(I, a[0]), tens(I, a[1]))


@lib("np.logical_or")
def _lor(I, a, k):
    return elementwise(lambda x, y: b01(x) + b01(y) - b01(x) * b01(y), tens(I, a[0]), tens(I, a[1]))


@lib("np.logical_not")
def _lnot(I, a, k):
    return elementwise(lambda x: ONE - b01(x), tens(I, a[0]))


def b01(x):
    return x if nf._is_boolean(x) else ONE - ind_eq0(x)


def norm(I, a, k):
    t = tens(I, a[0])
    ax = axes_arg(I, arg(a, k, 2, "axis"))
    o = arg(a, k, 1, "ord")
    if not is_none(o):
        return I.unknown("norm ord", *a)
    s = T.reduce_sum(elementwise(lambda x: abs2(x), t), ax)
    return elementwise(lambda x: x.pow(F(1, 2)), s)


def abs2(x):
    return x * x.conjugate()


@lib("np.where")
def _where(I, a, k):
    if len(a) < 3:
        return I.unknown("where/1", *a)
    return elementwise(lambda c, x, y: ite(b01(c), x, y), *[tens(I, x) for x in a])


@lib("np.select")
def _select(I, a, k):
    return I.unknown("select", *a)


@lib("np.clip")
def _clip(I, a, k):
    t = tens(I, a[0])
    lo, hi = arg(a, k, 1, "a_min", k.get("min")), arg(a, k, 2, "a_max", k.get("max"))
    if not is_none(lo):
        t = elementwise(max_of, t, tens(I, lo))
    if not is_none(hi):
        t = elementwise(min_of, t, tens(I, hi))
    return t


# reductions -----------------------------------------------------------------
@lib("np.sum")
def _sum(I, a, k):
    t = tens(I, a[0])
    kd = k.get("keepdims")
    return T.reduce_sum(t, axes_arg(I, arg(a, k, 1, "axis")), keepdims=kd is not None and I.truth(kd) == ONE)


@lib("np.mean", "np.average")
def _mean(I, a, k):
    if "weights" in k:
        return I.unknown("average weights", *a)
    t = tens(I, a[0])
    ax = axes_arg(I, arg(a, k, 1, "axis"))
    if t.axes is None:
        return opaque(fn("mean", t, K(repr(ax))))
    ks = range(t.rank) if ax is None else [x % t.rank for x in (ax if isinstance(ax, list) else [ax])]
    n = ONE
    for q in ks:
        n = n * t.axis_size(q)
    s = T.reduce_sum(t, ax, keepdims="keepdims" in k and I.truth(k["keepdims"]) == ONE)
    return elementwise(lambda x: x / n, s)


@lib("np.prod")
def _prod(I, a, k):
    t = tens(I, a[0])
    ax = axes_arg(I, arg(a, k, 1, "axis"))
    return reduce_with(I, t, ax, "prod", lambda x, y: x * y)


def reduce_with(I, t, ax, name, op):
    if t.axes is None:
        return opaque(fn(name, t, K(repr(ax))))
    t = t.opened()
    ks = list(range(t.rank)) if ax is None else [x % t.rank for x in (ax if isinstance(ax, list) else [ax])]
    b = t.body
    rest = [t.axes[q] for q in range(t.rank) if q not in ks]
    for q in ks:
        for v in t.axes[q]:
            n = v.dim.const
            if n is not None and n <= 16:
                r = None
                for i in range(n):
                    x = b.subst({v.name: const(i)})
                    r = x if r is None else op(r, x)
                b = r if r is not None else (ONE if name == "prod" else ZERO)
            elif v.name not in b.fv and name in ("max", "min"):
                pass
            elif v.name not in b.fv and name == "prod":
                b = fn("pow", b, v.dim.size)
            else:
                pr = "i" if b.is_integer() else ("r" if b.is_real() else "")
                if nf._is_boolean(b):
                    pr = "bi"
                b = fn(name, SeqB(v, [b]), props=pr)
    return Tensor(rest, b)


@lib("np.max", "np.amax")
def _max(I, a, k):
    return reduce_with(I, tens(I, a[0]), axes_arg(I, arg(a, k, 1, "axis")), "max", max_of)


@lib("np.min", "np.amin")
def _min(I, a, k):
    return reduce_with(I, tens(I, a[0]), axes_arg(I, arg(a, k, 1, "axis")), "min", min_of)


@lib("np.all")
def _all(I, a, k):
    t = elementwise(b01, tens(I, a[0]))
    return reduce_with(I, t, axes_arg(I, arg(a, k, 1, "axis")), "prod", lambda x, y: x * y)


@lib("np.any")
def _any(I, a, k):
    t = elementwise(lambda x: ONE - b01(x), tens(I, a[0]))
    r = reduce_with(I, t, axes_arg(I, arg(a, k, 1, "axis")), "prod", lambda x, y: x * y)
    return elementwise(lambda x: ONE - x, r)


@lib("np.argmax", "np.argmin", "np.argsort", "np.searchsorted", "np.unique", "np.sort", "np.flip_", "np.linalg.inv",
     "np.linalg.pinv", "np.linalg.solve", "np.linalg.eigh", "np.linalg.eigvalsh", "np.linalg.svd", "np.linalg.lstsq")
def _placeholder(I, a, k):
    raise Unknown("placeholder")


def _opq(name, *fixed):
    def h(I, a, k):
        return opaque(fn(name, *[I.node(x) for x in a], *[Seq([K(q), I.node(k[q])]) for q in sorted(k)]))
    LIB[name] = h


for _n in ("np.argmax", "np.argmin", "np.argsort", "np.sort", "np.linalg.solve", "np.linalg.svd",
           "np.linalg.lstsq", "np.median", "np.histogram", "np.nonzero", "np.isclose", "np.allclose"):
    _opq(_n)


def _sorted_axis(name):
    def h(I, a, k):
        t = tens(I, a[0])
        ax = arg(a, k, 1, "axis", num(-1))
        if t.axes is None or t.rank == 0 or is_none(ax) or any(q not in ("axis",) for q in k):
            return opaque(fn(name, *[I.node(x) for x in a], *[Seq([K(q), I.node(k[q])]) for q in sorted(k)]))
        t = t.opened()
        q = int_arg(I, ax) % t.rank
        if len(t.axes[q]) != 1:
            if not t.axes[q]:
                return t if name == "sort" else Tensor(t.axes, ZERO)
            raise Unknown("sort of a flattened axis")
        v = t.axes[q][0]
        w = var(v.dim)
        pr = "rin" if name == "argsort" else ("i" if t.body.is_integer() else "r" if t.body.is_real() else "")
        axes = list(t.axes)
        axes[q] = (w,)
        return Tensor(axes, fn(name, SeqB(v, [t.body]), w.as_poly(), props=pr))
    return h


def _arg_extreme(name, better):
    def h(I, a, k):
        t = tens(I, a[0])
        ax = arg(a, k, 1, "axis", NONE)
        if t.axes is not None and t.rank == 1 and set(k) <= {"axis"}:
            n = t.axis_size(0).int_value()
            if n:
                vals = [nf.numeric(t.index_axis(0, const(i)).body) for i in range(n)]
                if all(v is not None for v in vals):
                    best = 0
                    for i, v in enumerate(vals):
                        if better(v, vals[best]):
                            best = i
                    return num(best)
        return opaque(fn(name, *[I.node(x) for x in a], *[Seq([K(q), I.node(k[q])]) for q in sorted(k)]))
    return h


LIB["np.argmin"] = _arg_extreme("np.argmin", lambda x, y: x < y)
LIB["np.argmax"] = _arg_extreme("np.argmax", lambda x, y: x > y)
LIB["np.sort"] = _sorted_axis("sort")
LIB["np.argsort"] = _sorted_axis("argsort")


def number_rows(t):
    """entries of a rank-2 array of numbers as a list of rows, None if not all known"""
    if t.axes is None or t.rank != 2:
        return None
    n, m = t.axis_size(0).int_value(), t.axis_size(1).int_value()
    if n is None or m is None or n * m > 200000:
        return None
    tab = table(t)
    if tab is None:
        return None
    rows = [tuple(float(tab.get((i, j), 0)) for j in range(m)) for i in range(n)]
    return rows


def _small(a, env):
    """value of an index expression for given values of its variables, None if it contains anything else"""
    if isinstance(a, Poly):
        tot = Fraction(0)
        for m, c in a.terms.items():
            if m.binders or not c.isreal:
                return None
            x = c.re
            for b, e in m.factors:
                v = _small(b, env)
                if v is None or e != int(e) or (e < 0 and v == 0):
                    return None
                x = x * v ** int(e)
                if not x:
                    break
            tot += x
        return tot
    if a.kind == "var":
        v = env.get(a.name)
        return None if v is None else Fraction(v)
    if a.kind == "delta":
        x, y = _small(a.args[0], env), _small(a.args[1], env)
        return None if x is None or y is None else Fraction(int(x == y))
    if a.kind in ("eq0", "lt0"):
        v = _small(a.args[0], env)
        return None if v is None else Fraction(int(v == 0 if a.kind == "eq0" else v < 0))
    return None


def table(t):
    """nonzero entries of an array of real rational numbers: {index tuple: value}, None if not all known"""
    if t.axes is None:
        return None
    vs = [v for ax in t.axes for v in ax]
    ext = {v.name: v.dim.size.int_value() for v in vs}
    if any(n is None for n in ext.values()):
        return None
    flat = {}
    for m, c in t.body.terms.items():
        if m.binders or not c.isreal:
            return None
        pin = {}
        for a, e in m.factors:
            if a.kind == "eq0":
                q = a.args[0]
                lone = [x for x in q.terms if x.factors]
                if len(lone) == 1 and len(lone[0].factors) == 1 and lone[0].factors[0][0].kind == "var" and lone[0].factors[0][1] == 1 and not lone[0].binders and not (len(q.terms) > 2):
                    v = lone[0].factors[0][0].name
                    rest = [y for x, y in q.terms.items() if not x.factors]
                    z = -(rest[0].re if rest else 0) / q.terms[lone[0]].re if q.terms[lone[0]].isreal else None
                    if z is not None and v in ext:
                        if z.denominator != 1 if isinstance(z, Fraction) else False:
                            pin[v] = None
                        elif v in pin and pin[v] != z:
                            pin[v] = None
                        else:
                            pin[v] = int(z)
        if any(z is None for z in pin.values()):
            continue
        rng = [[pin[v.name]] if v.name in pin else range(ext[v.name]) for v in vs]
        size = 1
        for r in rng:
            size *= len(r)
        if size > 100000:
            return None
        for pt in itertools.product(*rng):
            if any(not 0 <= x < ext[v.name] for x, v in zip(pt, vs)):
                continue
            env = {v.name: x for v, x in zip(vs, pt)}
            x = c.re
            for a, e in m.factors:
                w = _small(a, env)
                if w is None or e != int(e) or (e < 0 and w == 0):
                    return None
                x = x * w ** int(e)
                if not x:
                    break
            if x:
                flat[pt] = flat.get(pt, 0) + x
    out = {}
    for pt, x in flat.items():
        if x:
            i, key = 0, []
            for ax in t.axes:
                z = 0
                for v in ax:
                    z = z * ext[v.name] + pt[i]
                    i += 1
                key.append(z)
            out[tuple(key)] = x
    return out


@lib("sp.special.logsumexp", "jax.nn.logsumexp")
def _logsumexp(I, a, k):
    b = arg(a, k, 2, "b")
    t = I.call_lib("np.exp", [a[0]], {})
    if not is_none(b):
        t = binop(I, ast.Mult(), b, t)
    kw = {q: k[q] for q in ("axis", "keepdims") if q in k}
    return I.call_lib("np.log", [I.call_lib("np.sum", [t] + list(a[1:2]), kw)], {})


@lib("np.unique")
def _unique(I, a, k):
    ax = k.get("axis", NONE)
    t = tens(I, a[0]) if not isinstance(a[0], (Ref, Tup)) else I.array_of(a[0])
    if t.axes is not None and t.rank is not None and set(k) <= {"axis", "return_index", "return_inverse", "return_counts"} and len(a) == 1:
        if is_none(ax) and t.rank == 1:
            t2 = T.expand_dims(t, 1)
        elif not is_none(ax) and t.rank == 2 and int_arg(I, ax) in (0, -2):
            t2 = t
        else:
            t2 = None
        rows = number_rows(t2) if t2 is not None else None
        if rows:
            first, inv, cnt = {}, [], {}
            for i, r in enumerate(rows):
                first.setdefault(r, i)
                cnt[r] = cnt.get(r, 0) + 1
            order = sorted(first)
            pos = {r: i for i, r in enumerate(order)}
            res = [T.stack_literal([t.index_axis(0, const(first[r])) for r in order])]
            for q, vals in (("return_index", [first[r] for r in order]), ("return_inverse", [pos[r] for r in rows]), ("return_counts", [cnt[r] for r in order])):
                if q in k and I.truth(k[q]) == ONE:
                    z = T.stack_literal([num(x) for x in vals])
                    res.append(Tensor(z.axes, z.body, dt="idx"))
            return res[0] if len(res) == 1 else Tup(res)
    if not is_none(ax):
        return I.unknown("np.unique along an axis", *a)
    names = [q for q in ("return_index", "return_inverse", "return_counts") if q in k and I.truth(k[q]) == ONE]
    nd = I.node(a[0])
    extra = tuple(Seq([K(q), I.node(k[q])]) for q in sorted(k) if not q.startswith("return_"))
    r = opaque(fn("unique", nd, *extra))
    if not names:
        return r
    return Tup([r] + [opaque(fn("unique_" + q, nd, *extra)) for q in names])


@lib("np.linalg.eigh")
def _eigh(I, a, k):
    t = tens(I, a[0])
    if t.axes is not None and t.rank == 2:
        o = t.opened()
        n = o.axes[0]
        w = var(n[0].dim) if len(n) == 1 else var(Dim.of_size(o.axis_size(0)))
        u = var(w.dim)
        return Tup([Tensor([(w,)], fn("eigval", t, w.as_poly(), props="r")), Tensor([(u,), (w,)], fn("eigvec", t, u.as_poly(), w.as_poly()))])
    return Tup([opaque(fn("eigval", I.node(t), props="r")), opaque(fn("eigvec", I.node(t)))])


@lib("np.linalg.inv")
def _inv(I, a, k):
    return matfun(I, "inv", a[0])


@lib("np.linalg.pinv")
def _pinv(I, a, k):
    # the assertion that the matrix is hermitian does not change the pseudo-inverse
    tol = arg(a, k, 1, "rcond", k.get("rtol"))
    extra = [] if is_none(tol) else [I.node(tol)]
    return matfun(I, "pinv", a[0], *extra)


def matfun(I, name, v, *extra):
    t = tens(I, v)
    if t.axes is not None and t.rank == 2:
        o = t.opened()
        r, c = o.axes
        u = tuple(var(x.dim) for x in c)
        w = tuple(var(x.dim) for x in r)
        return Tensor([u, w], fn(name, t, *extra, *[x.as_poly() for x in u + w]))
    return opaque(fn(name, t, *extra))


@lib("np.searchsorted")
def _searchsorted(I, a, k):
    """position in a sorted array: the number of entries below (or not above) the value"""
    t, v = tens(I, a[0]), tens(I, arg(a, k, 1, "v"))
    side = arg(a, k, 2, "side")
    side = "left" if side is None else side.val if isinstance(side, Const) else None
    if t.axes is None or t.rank != 1 or v.axes is None or len(a) > 3 or any(q not in ("v", "side", "method") for q in k) or side not in ("left", "right"):
        return opaque(fn("np.searchsorted", *[I.node(x) for x in a], *[Seq([K(q), I.node(k[q])]) for q in sorted(k)]))
    w = var(Dim.of_size(t.axis_size(0)))
    e = t.index_axis(0, w.as_poly()).body

    def f(x):
        return sum_over(ind_lt0(e - x) if side == "left" else ONE - ind_lt0(x - e), w)
    return elementwise(f, v)


@lib("np.cumsum")
def _cumsum(I, a, k):
    t = tens(I, a[0])
    ax = axes_arg(I, arg(a, k, 1, "axis"))
    if t.axes is None:
        return opaque(fn("cumsum", t))
    if ax is None:
        t = T.ravel(t)
        ax = 0
    t = t.opened()
    q = ax % t.rank
    if len(t.axes[q]) != 1:
        if not t.axes[q]:
            return t
        w = var(Dim.of_size(t.axis_size(q)))
        tt = t.index_axis(q, w.as_poly())
        t = Tensor(tt.axes[:q] + ((w,),) + tt.axes[q:], tt.body)
    v = t.axes[q][0]
    w = var(v.dim)
    b = sum_over((ONE - ind_lt0(v.as_poly() - w.as_poly())) * t.body.subst({v.name: w.as_poly()}), w)
    return Tensor(t.axes, b)


# products ---------------------------------------------------------------------
@lib("np.dot")
def _dot(I, a, k):
    return T.dot(tens(I, a[0]), tens(I, a[1]))


@lib("np.matmul")
def _matmul(I, a, k):
    return T.matmul(tens(I, a[0]), tens(I, a[1]))


@lib("np.vdot")
def _vdot(I, a, k):
    x, y = tens(I, a[0]), tens(I, a[1])
    return T.dot(T.ravel(elementwise(lambda z: z.conjugate(), x)), T.ravel(y))


@lib("np.inner")
def _inner(I, a, k):
    return T.tensordot(tens(I, a[0]), tens(I, a[1]), [-1], [-1])


@lib("np.outer")
def _outer(I, a, k):
    return T.outer(tens(I, a[0]), tens(I, a[1]))


@lib("np.tensordot")
def _tensordot(I, a, k):
    x, y = tens(I, a[0]), tens(I, a[1])
    ax = arg(a, k, 2, "axes")
    if ax is None:
        n = 2
    else:
        n = I.int_of(ax) if not isinstance(ax, (Tup, Ref)) else None
    if x.axes is None or y.axes is None:
        return opaque(fn("tensordot", x, y, I.node(ax) if ax is not None else K(2)))
    if n is not None:
        if n == 0:
            x, y = x.opened(), y.opened()
            return Tensor(x.axes + y.axes, x.body * y.body)
        return T.tensordot(x, y, list(range(x.rank - n, x.rank)), list(range(n)))
    its = ax.items if isinstance(ax, Tup) else I.content(ax)
    p, q = [axes_arg(I, z) for z in its]
    p = p if isinstance(p, list) else [p]
    q = q if isinstance(q, list) else [q]
    return T.tensordot(x, y, p, q)


@lib("np.einsum")
def _einsum(I, a, k):
    if not (isinstance(a[0], Const) and isinstance(a[0].val, str)):
        return I.unknown("einsum", *a)
    return T.einsum(a[0].val, [tens(I, x) for x in a[1:]])


@lib("np.kron")
def _kron(I, a, k):
    x, y = tens(I, a[0]), tens(I, a[1])
    if x.axes is None or y.axes is None:
        return opaque(fn("kron", x, y))
    x, y = x.opened(), y.opened()
    r = max(x.rank, y.rank)
    xa = [()] * (r - x.rank) + list(x.axes)
    ya = [()] * (r - y.rank) + list(y.axes)
    return Tensor([p + q for p, q in zip(xa, ya)], x.body * y.body)


# construction -------------------------------------------------------------------
def _array(I, a, k):
    v = a[0] if a else k.get("object")
    dt = dtype_name(I, arg(a, k, 1, "dtype"))
    if isinstance(v, (Const,)) and v.val is None:
        return v
    if isinstance(v, (ConcatVec, Tree)):
        return v
    if isinstance(v, RangeV):
        v = range_list(I, v)
    if isinstance(v, Choice):
        try:
            t = I.num_of(v)
        except Unknown:
            return I.merge(v.c, _array(I, [v.a] + list(a[1:]), k), _array(I, [v.b] + list(a[1:]), k))
    else:
        t = I.array_of(v)
    nd = k.get("ndmin")
    t2 = cast(I, t, dt)
    if nd is not None and t2.axes is not None:
        while t2.rank < int_arg(I, nd):
            t2 = T.expand_dims(t2, 0)
    return Tensor(t2.axes, t2.body, t.kind, t2.dt)


for _n in ("np.array", "np.asarray", "np.asanyarray", "np.ascontiguousarray", "np.copy"):
    LIB[_n] = _array


def range_list(I, r):
    kind, *rest = I.iterate(r)
    if kind == "conc":
        return I.list(rest[0])
    w = var(rest[0])
    return I.list([Comp(w, [rest[1](w)])])


def _const_arr(c):
    def h(I, a, k):
        sh = shape_arg(I, arg(a, k, 0, "shape"))
        dt = dtype_name(I, arg(a, k, 1, "dtype"))
        return Tensor(make_axes(sh), const(c), dt=dt_tag(dt))
    return h


LIB["np.zeros"] = _const_arr(0)
LIB["np.ones"] = _const_arr(1)


@lib("np.full")
def _full(I, a, k):
    sh = shape_arg(I, arg(a, k, 0, "shape"))
    v = tens(I, arg(a, k, 1, "fill_value"))
    return Tensor(make_axes(sh), v.body)


@lib("np.empty")
def _empty(I, a, k):
    sh = shape_arg(I, arg(a, k, 0, "shape"))
    dt = dtype_name(I, arg(a, k, 1, "dtype"))
    ax = make_axes(sh)
    return Tensor(ax, sym("uninit%d" % nf.fresh_id(), [v.as_poly() for x in ax for v in x], "u"), dt=dt_tag(dt))


@lib("np.empty_like")
def _empty_like(I, a, k):
    t = tens(I, a[0])
    if t.axes is None:
        return opaque(sym("uninit%d" % nf.fresh_id(), props="u"))
    t = t.opened()
    return Tensor(t.axes, sym("uninit%d" % nf.fresh_id(), [v.as_poly() for x in t.axes for v in x], "u"))


def _like(c):
    def h(I, a, k):
        t = tens(I, a[0])
        if t.axes is None:
            return opaque(const(c))
        dt = arg(a, k, 1, "dtype")
        return Tensor(t.opened().axes, const(c), dt=None if is_none(dt) else dt_tag(dtype_name(I, dt)))
    return h


LIB["np.zeros_like"] = _like(0)
LIB["np.ones_like"] = _like(1)


@lib("np.full_like")
def _full_like(I, a, k):
    t = tens(I, a[0])
    return elementwise(lambda x, y: y, Tensor(t.axes, ZERO), tens(I, a[1]))


@lib("np.arange")
def _arange(I, a, k):
    ps = [poly_of(I, x) for x in a]
    if len(ps) == 1:
        lo, hi, st = ZERO, ps[0], ONE
    else:
        lo, hi = ps[0], ps[1]
        st = ps[2] if len(ps) > 2 else (poly_of(I, k["step"]) if "step" in k else ONE)
    r = RangeV(lo, hi, st)
    n = r.length()
    if n.int_value() is not None:
        n = const(max(n.int_value(), 0))
    if n.const_value() == CQ1:
        return Tensor([()], lo)
    v = var(Dim.of_size(n))
    return Tensor([(v,)], lo + v.as_poly() * st)


@lib("np.linspace")
def _linspace(I, a, k):
    return I.unknown("linspace", *a)


@lib("np.eye", "np.identity")
def _eye(I, a, k):
    k.get("dtype")      # 0 and 1 are exact in every type
    if len(a) > 1:
        return I.unknown("np.eye", *a)
    return T.eye(poly_of(I, a[0]))


@lib("np.diag")
def _diag(I, a, k):
    t = tens(I, a[0])
    if t.axes is None:
        return opaque(fn("diag", t))
    return T.diag(t)


@lib("np.diagonal")
def _diagonal(I, a, k):
    t = tens(I, a[0])
    if t.axes is None or t.rank != 2:
        return opaque(fn("diag", t))
    return T.diag(t)


@lib("np.trace")
def _trace(I, a, k):
    t = tens(I, a[0])
    if t.axes is None or t.rank != 2:
        return opaque(fn("trace", t))
    return T.reduce_sum(T.diag(t))


def _tri(lower):
    def h(I, a, k):
        t = tens(I, a[0])
        kk = arg(a, k, 1, "k")
        kk = ZERO if is_none(kk) else poly_of(I, kk)
        if t.axes is None or t.rank != 2:
            return opaque(fn("tril" if lower else "triu", t, kk))
        t = t.opened()
        x = lin(t.axes[1]) - lin(t.axes[0]) - kk
        keep = ONE - ind_lt0(-x) if lower else ONE - ind_lt0(x)
        return Tensor(t.axes, keep * t.body)
    return h


LIB["np.tril"] = _tri(True)
LIB["np.triu"] = _tri(False)


@lib("np.tri")
def _tri_fn(I, a, k):
    n = poly_of(I, a[0])
    m = arg(a, k, 1, "M")
    m = n if is_none(m) else poly_of(I, m)
    i, j = var(Dim.of_size(n)), var(Dim.of_size(m))
    return _tri(True)(I, [Tensor([(i,), (j,)], ONE), arg(a, k, 2, "k")], {})


# shape manipulation -----------------------------------------------------------------
@lib("np.transpose", "np.permute_dims")
def _transpose(I, a, k):
    t = tens(I, a[0])
    p = arg(a, k, 1, "axes")
    perm = axes_arg(I, p) if not is_none(p) else None
    if perm is not None and t.axes is not None:
        perm = [x % t.rank for x in perm]
        if sorted(perm) != list(range(t.rank)):
            raise ShapeError("bad permutation %r for rank %d" % (perm, t.rank))
    return T.transpose(t, perm)


@lib("np.swapaxes")
def _swapaxes(I, a, k):
    t = tens(I, a[0])
    x, y = int_arg(I, a[1]), int_arg(I, a[2])
    if t.axes is None:
        return opaque(fn("swapaxes", t, K(x), K(y)))
    p = list(range(t.rank))
    p[x], p[y] = p[y], p[x]
    return T.transpose(t, p)


@lib("np.moveaxis")
def _moveaxis(I, a, k):
    t = tens(I, a[0])
    x, y = int_arg(I, a[1]), int_arg(I, a[2])
    if t.axes is None:
        return opaque(fn("moveaxis", t, K(x), K(y)))
    p = list(range(t.rank))
    q = p.pop(x)
    p.insert(y % t.rank, q)
    return T.transpose(t, p)


@lib("np.expand_dims")
def _expand(I, a, k):
    t = tens(I, a[0])
    ax = axes_arg(I, arg(a, k, 1, "axis"))
    if isinstance(ax, list):
        for x in sorted(ax):
            t = T.expand_dims(t, x)
        return t
    return T.expand_dims(t, ax)


@lib("np.squeeze")
def _squeeze(I, a, k):
    return T.squeeze(tens(I, a[0]), axes_arg(I, arg(a, k, 1, "axis")))


@lib("np.ravel")
def _ravel(I, a, k):
    if isinstance(a[0], ConcatVec):
        return a[0]
    return T.ravel(tens(I, a[0]))


@lib("np.reshape")
def _reshape(I, a, k):
    t = tens(I, a[0])
    sh = a[1] if len(a) > 1 else k.get("newshape", k.get("shape"))
    if "order" in k or len(a) > 2:
        return tensor_method(I, t, "reshape", [sh], {"order": arg(a, k, 2, "order")})
    return do_reshape(I, t, [sh])


def do_reshape(I, t, shp):
    if len(shp) == 1 and (isinstance(shp[0], (Tup, Choice)) or isinstance(shp[0], Ref) or (isinstance(shp[0], Tensor) and shp[0].axes is None)):
        sh = shape_arg(I, shp[0])
    else:
        sh = []
        for x in shp:
            if isinstance(x, Tensor) and x.axes is None:
                a = x.body.single_atom()
                if a is not None and a.kind == "fn" and a.name == "shape_tail":
                    raise Unknown("reshape to opaque shape")
            sh.append(poly_of(I, x))
    return T.reshape(t, sh)


@lib("np.atleast_1d")
def _al1(I, a, k):
    t = tens(I, a[0])
    return T.expand_dims(t, 0) if t.axes is not None and t.rank == 0 else t


@lib("np.broadcast_to")
def _bto(I, a, k):
    t = tens(I, a[0])
    sh = shape_arg(I, a[1])
    return elementwise(lambda x, y: x + y, t, Tensor(make_axes(sh), ZERO))


@lib("np.tile")
def _tile(I, a, k):
    t = tens(I, a[0])
    r = a[1]
    if t.axes is None:
        return opaque(fn("tile", t, I.node(r)))
    reps = shape_arg(I, r) if isinstance(r, (Tup, Ref)) else [poly_of(I, r)]
    n = max(len(reps), t.rank)
    reps = [ONE] * (n - len(reps)) + reps
    t = t.opened()
    axs = [()] * (n - t.rank) + list(t.axes)
    out = []
    for p, ax in zip(reps, axs):
        if p.const_value() == CQ1:
            out.append(ax)
        else:
            out.append((var(Dim.of_size(p)),) + ax)
    return Tensor(out, t.body)


@lib("np.repeat")
def _repeat(I, a, k):
    t = tens(I, a[0])
    ax = axes_arg(I, arg(a, k, 2, "axis"))
    n = a[1]
    if t.axes is None or (isinstance(n, Tensor) and n.axes):
        return opaque(fn("repeat", t, I.node(n), K(repr(ax))))
    if ax is None:
        t = T.ravel(t)
        ax = 0
    t = t.opened()
    axs = list(t.axes)
    ax %= t.rank
    p = poly_of(I, n)
    if p.const_value() != CQ1:
        axs[ax] = axs[ax] + (var(Dim.of_size(p)),)
    return Tensor(axs, t.body)


@lib("np.flip")
def _flip(I, a, k):
    t = tens(I, a[0])
    ax = axes_arg(I, arg(a, k, 1, "axis"))
    if t.axes is None:
        return opaque(fn("flip", t, K(repr(ax))))
    t = t.opened()
    ks = range(t.rank) if ax is None else [x % t.rank for x in (ax if isinstance(ax, list) else [ax])]
    b = t.body
    for q in ks:
        for v in t.axes[q]:
            b = b.subst({v.name: v.dim.size - 1 - v.as_poly()})
    return Tensor(t.axes, b)


@lib("np.rot90")
def _rot90(I, a, k):
    t = tens(I, a[0])
    n = int_arg(I, arg(a, k, 1, "k", num(1))) % 4
    ax = arg(a, k, 2, "axes")
    p, q = (0, 1) if ax is None else [int_arg(I, x) % t.rank for x in I.unpack(ax, 2)]
    if t.axes is None or p == q:
        return I.unknown("np.rot90", *a)
    flip = lambda z, y: I.call_lib("np.flip", [z, num(y)], {})
    perm = list(range(t.rank))
    perm[p], perm[q] = perm[q], perm[p]
    if n == 0:
        return t
    if n == 2:
        return flip(flip(t, p), q)
    return T.transpose(flip(t, q), perm) if n == 1 else flip(T.transpose(t, perm), q)


@lib("np.flipud")
def _flipud(I, a, k):
    return _flip(I, [a[0], num(0)], {})


@lib("np.fliplr")
def _fliplr(I, a, k):
    return _flip(I, [a[0], num(1)], {})


@lib("np.roll")
def _roll(I, a, k):
    t = tens(I, a[0])
    ax = axes_arg(I, arg(a, k, 2, "axis"))
    sh = arg(a, k, 1, "shift")
    if t.axes is None:
        return opaque(fn("roll", t, I.node(sh), K(repr(ax))))
    orig = None
    if ax is None:
        orig = t
        t = T.ravel(t)
        ax = 0
    t = t.opened()
    axl = ax if isinstance(ax, list) else [ax]
    shl = shape_arg(I, sh) if isinstance(sh, Tup) else [poly_of(I, sh)]
    cur = t
    for q, s in zip(axl, shl):
        q %= cur.rank
        axs = cur.axes[q]
        if not axs:
            continue
        w = var(axs[0].dim) if len(axs) == 1 else var(Dim.of_size(cur.axis_size(q)))
        n = w.dim.size
        r = cur.index_axis(q, nf.mod(w.as_poly() - s, n))
        cur = Tensor(r.axes[:q] + ((w,),) + r.axes[q:], r.body).opened()
    if orig is not None and orig.rank != 1:
        cur = T.reshape(cur, orig.shape())
    return cur


@lib("np.pad")
def _pad(I, a, k):
    t = tens(I, a[0])
    pw = arg(a, k, 1, "pad_width")
    mode = arg(a, k, 2, "mode")
    mode = mode.val if isinstance(mode, Const) else ("constant" if mode is None else None)
    cv = k.get("constant_values")
    fill = ZERO if cv is None else I.num_of(cv).body if isinstance(cv, Tensor) and cv.axes == () else None
    if t.axes is None or mode not in ("wrap", "constant") or fill is None:
        return opaque(fn("pad", t, I.node(pw), K(str(mode))))
    items = pw.items if isinstance(pw, Tup) else (I.content(pw) if isinstance(pw, Ref) else None)
    if items is None or len(items) != t.rank:
        if items is not None and len(items) == 2 and t.rank == 1:
            items = [Tup(items)]
        else:
            return opaque(fn("pad", t, I.node(pw), K(str(mode))))
    cur = t.opened()
    for q, it in enumerate(items):
        lo, hi = shape_arg(I, it)
        if lo.is_zero() and hi.is_zero():
            continue
        axs = cur.axes[q]
        n = cur.axis_size(q)
        w = var(Dim.of_size(n + lo + hi))
        if mode == "wrap":
            r = cur.index_axis(q, nf.mod(w.as_poly() - lo, n))
            b = r.body
        else:
            r = cur.index_axis(q, w.as_poly() - lo)
            x = w.as_poly() - lo
            b = (ONE - ind_lt0(x)) * ind_lt0(x - n) * (r.body - fill) + fill
        cur = Tensor(r.axes[:q] + ((w,),) + r.axes[q:], b).opened()
    return cur


def seq_items(I, v):
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Ref) and v.kind == "list":
        return list(I.content(v))
    return None


@lib("np.concatenate")
def _concat(I, a, k):
    ax = axes_arg(I, arg(a, k, 1, "axis")) if arg(a, k, 1, "axis") is not None else 0
    its = seq_items(I, a[0])
    if its is None:
        if isinstance(a[0], Tensor):
            t = a[0]
            if t.axes is not None and t.rank >= 2 and ax == 0:
                t = t.opened()
                return Tensor([t.axes[0] + t.axes[1]] + list(t.axes[2:]), t.body)
        if isinstance(a[0], Tree):
            return ConcatVec([Comp(a[0].v, [a[0].leaf])])
        return opaque(fn("concat", I.node(a[0]), K(repr(ax))))
    if any(isinstance(x, (ConcatVec, Comp, CondSeg, Tree)) for x in its) and ax in (0, None):
        if len(its) == 1 and isinstance(its[0], Comp) and len(its[0].items) == 1 and isinstance(its[0].items[0], Tensor):
            t, w = its[0].items[0], its[0].v
            if t.axes is not None and t.rank >= 1 and not any(w.name in u.dim.size.fv for u in t.axes[0]):
                t = t.opened()
                nw = var(w.dim)
                return Tensor([(nw,) + t.axes[0]] + list(t.axes[1:]), t.body.subst({w.name: nw.as_poly()}))
        segs = []
        for x in its:
            if isinstance(x, ConcatVec):
                segs += x.segs
            else:
                segs.append(x)
        return ConcatVec(segs)
    ts = [tens(I, x) for x in its]
    if any(t.axes is None for t in ts):
        return opaque(fn("concat", Seq([I.node(x) for x in ts]), K(repr(ax))))
    if ax is None:
        ts = [T.ravel(t) for t in ts]
        ax = 0
    if any(t.rank != ts[0].rank for t in ts):
        raise ShapeError("concatenate of arrays of different rank")
    return concat_tensors([t for t in ts], ax % ts[0].rank if ts[0].rank else _bad0())


def _bad0():
    raise ShapeError("concatenate of scalars")


def concat_tensors(ts, ax):
    if len(ts) == 1:
        return ts[0]
    ts = [t.opened() for t in ts]
    # drop empty parts
    ts = [t for t in ts if not t.axis_size(ax).is_zero()] or ts[:1]
    if len(ts) == 1:
        return ts[0]
    sizes = [t.axis_size(ax) for t in ts]
    total = sum(sizes, ZERO)
    w = var(Dim.of_size(total))
    parts, off = [], ZERO
    parts = []
    for t, s in zip(ts, sizes):
        parts.append(t.index_axis(ax, w.as_poly() - off))
        off = off + s
    axes, bs = T.broadcast(parts)
    off = ZERO
    offs = []
    for s in sizes:
        off = off + s
        offs.append(off)
    out = bs[-1]
    for b, o in reversed(list(zip(bs[:-1], offs[:-1]))):
        out = ite(ind_lt0(w.as_poly() - o), b, out)
    return Tensor(list(axes[:ax]) + [(w,)] + list(axes[ax:]), out)


@lib("np.append")
def _append(I, a, k):
    return _concat(I, [Tup([tens(I, a[0]) if not (isinstance(a[0], Tensor) and a[0].axes == ()) else T.expand_dims(a[0], 0),
                            tens(I, a[1]) if not (isinstance(a[1], Tensor) and a[1].axes == ()) else T.expand_dims(a[1], 0)])], k)


@lib("np.stack")
def _stack(I, a, k):
    ax = axes_arg(I, arg(a, k, 1, "axis")) or 0
    t = I.array_of(a[0]) if not isinstance(a[0], Tensor) else a[0]
    if ax and t.axes is not None:
        p = list(range(t.rank))
        q = p.pop(0)
        p.insert(ax % t.rank, q)
        return T.transpose(t, p)
    return t


@lib("np.vstack")
def _vstack(I, a, k):
    its = seq_items(I, a[0])
    if its is None:
        return opaque(fn("vstack", I.node(a[0])))
    ts = [tens(I, x) for x in its]
    if any(t.axes is None for t in ts):
        return opaque(fn("vstack", Seq([I.node(x) for x in ts])))
    ts = [T.expand_dims(t, 0) if t.rank == 1 else t for t in ts]
    return concat_tensors(ts, 0)


@lib("np.hstack")
def _hstack(I, a, k):
    its = seq_items(I, a[0])
    ts = [tens(I, x) for x in its]
    if any(t.axes is None for t in ts):
        return opaque(fn("hstack", Seq([I.node(x) for x in ts])))
    return concat_tensors(ts, 0 if ts[0].rank == 1 else 1)


@lib("np.split", "np.array_split")
def _npsplit(I, a, k):
    return I.unknown("split", *a)


@lib("np.unravel_index")
def _unravel(I, a, k):
    ix = tens(I, a[0])
    sh = shape_arg(I, a[1])
    out = []
    rest = ix
    for s in reversed(sh[1:]):
        out.append(elementwise(lambda x: nf.mod(x, s), rest))
        rest = elementwise(lambda x: nf.floordiv(x, s), rest)
    out.append(rest)
    return Tup(out[::-1])


@lib("np.ravel_multi_index")
def _ravmi(I, a, k):
    its = seq_items(I, a[0])
    sh = shape_arg(I, a[1])
    acc = num(0)
    for x, s in zip(its, sh):
        acc = elementwise(lambda p, q: p * s + q, acc, tens(I, x))
    return acc


@lib("np.take")
def _take(I, a, k):
    ax = arg(a, k, 2, "axis")
    t = tens(I, a[0])
    if is_none(ax):
        t = T.ravel(t)
        return getitem(I, t, a[1])
    n = int_arg(I, ax) % t.rank
    return getitem(I, t, Tup([SliceV(NONE, NONE, NONE)] * n + [a[1]]))


@lib("np.take_along_axis")
def _taa(I, a, k):
    return I.unknown("take_along_axis", *a)


@lib("np.shape")
def _shape(I, a, k):
    return tensor_attr(I, tens(I, a[0]), "shape")


@lib("np.size")
def _size(I, a, k):
    return tensor_attr(I, tens(I, a[0]), "size")


@lib("np.ndim")
def _ndim(I, a, k):
    return tensor_attr(I, tens(I, a[0]), "ndim")


for _n in ("float64", "complex128", "float32", "complex64", "int32", "int64", "single", "double", "uint8", "int8"):
    def _mk(n):
        LIB["np." + n] = lambda I, a, k: cast(I, tens(I, a[0]), n)
    _mk(_n)


# jax ----------------------------------------------------------------------------
@lib("jax.device_put", "jax.block_until_ready", "jax.lax.stop_gradient_", "jax.device_get")
def _devput(I, a, k):
    if len(a) > 1 or k:
        I.event("device_put", args=a, kw=k)
    return a[0]


@lib("jax.lax.stop_gradient")
def _stopgrad(I, a, k):
    if getattr(I, "in_grad", 0) and isinstance(a[0], Tensor):
        return elementwise(lambda x: fn("stopgrad", x, props="r" if x.is_real() else ""), a[0])
    return a[0]


@lib("jax.jit", "flax.linen.jit", "jax.checkpoint", "jax.remat")
def _jit(I, a, k):
    if not a:
        return PyFn(lambda I2, a2, k2: a2[0], "jit-decorator")
    return a[0]


@lib("functools.partial", "jax.tree_util.Partial", "tree.Partial")
def _partial(I, a, k):
    return Partial(a[0], a[1:], k)


@lib("functools.wraps")
def _wraps(I, a, k):
    return PyFn(lambda I2, a2, k2: a2[0], "wraps")


@lib("jax.vmap")
def _vmap(I, a, k):
    return Mapped(a[0], arg(a, k, 1, "in_axes", num(0)), arg(a, k, 2, "out_axes", num(0)), k.get("axis_name"), (), "vmap")


@lib("jax.pmap")
def _pmap(I, a, k):
    st = k.get("static_broadcasted_argnums")
    static = ()
    if st is not None and not is_none(st):
        x = axes_arg(I, st)
        static = tuple(x) if isinstance(x, list) else (x,)
    f = a[0] if a else None
    if f is None:
        raise Unknown("pmap without function")
    m = Mapped(f, arg(a, k, 2, "in_axes", num(0)), k.get("out_axes", num(0)), arg(a, k, 1, "axis_name"), static, "pmap")
    I.event("pmap", fn=f, devices=k.get("devices"), kw=k, mapped=m)
    return m


def axspec(I, spec, n):
    """in_axes spec -> list of specs per positional arg"""
    if isinstance(spec, Tup) or (isinstance(spec, Ref) and spec.kind == "list"):
        its = list(spec.items if isinstance(spec, Tup) else I.content(spec))
        return its + [num(0)] * (n - len(its))
    return [spec] * n


def call_mapped(I, f, args, kw):
    n = len(args)
    specs = axspec(I, f.in_axes, n) if not f.static else None
    if f.static:
        dyn = [i for i in range(n) if i not in f.static]
        sp = axspec(I, f.in_axes, len(dyn))
        specs = [NONE] * n
        if isinstance(f.in_axes, Tup) and len(f.in_axes.items) == n:
            specs = list(f.in_axes.items)
        else:
            for i, s in zip(dyn, sp):
                specs[i] = s
        for i in f.static:
            specs[i] = NONE
    state = {"ax": None, "lists": None}

    def pick(v, spec):
        """remove the mapped axis of one argument"""
        if is_none(spec):
            return v
        if isinstance(spec, (Tup,)) or (isinstance(spec, Ref) and spec.kind in ("list", "dict")):
            if isinstance(spec, Ref) and spec.kind == "dict":
                c, s = I.content(v), I.content(spec)
                return I.dict({q: pick(c[q], s.get(q, num(0))) for q in c})
            its = seq_items(I, v)
            ss = spec.items if isinstance(spec, Tup) else I.content(spec)
            return Tup([pick(x, s) for x, s in zip(its, ss)])
        if isinstance(v, Tup):
            return Tup([pick(x, spec) for x in v.items])
        if isinstance(v, Ref) and v.kind == "list":
            return I.list([pick(x, spec) if not isinstance(x, Comp) else Comp(x.v, [pick(y, spec) for y in x.items]) for x in I.content(v)])
        if isinstance(v, Ref) and v.kind == "dict":
            return I.dict({q: pick(x, spec) for q, x in I.content(v).items()})
        if is_none(v):
            return v
        k = int_arg(I, spec)
        if isinstance(v, Tree):
            return Tree(v.v, pick(v.leaf, spec), v.wrap)
        if isinstance(v, Choice):
            t = None
            try:
                t = I.num_of(v)
            except Unknown:
                return Choice(v.c, pick(v.a, spec), pick(v.b, spec))
            v = t
        t = tens(I, v)
        if t.axes is None:
            if state["ax"] is None:
                state["ax"] = (var(Dim.named("len(%s)" % t.body.key)),)
            ax = state["ax"]
            return opaque(fn("item", t.body, *[x.as_poly() for x in ax]))
        if t.rank == 0:
            raise ShapeError("mapping over a scalar")
        t = t.opened()
        k %= t.rank
        a = t.axes[k]
        rest = t.axes[:k] + t.axes[k + 1:]
        if state["ax"] is None:
            state["ax"] = a
            return Tensor(rest, t.body, t.kind, t.dt)
        if (not a) != (not state["ax"]):
            raise ShapeError("mapped axes have sizes %s and %s" % (pretty(t.axis_size(k)), "1" if not state["ax"] else "n"))
        cur, m1, m2 = unify_axis(state["ax"], a)
        if m1:
            raise Unknown("mapped axes with different factorisations")
        return Tensor(rest, t.body.subst(m2), t.kind, t.dt)

    newargs = [pick(v, s) for v, s in zip(args, specs)]
    newkw = {q: pick(v, num(0)) for q, v in kw.items()}
    ax = state["ax"] if state["ax"] is not None else ()
    an = f.axis_name.val if isinstance(f.axis_name, Const) else None
    I.pmap_axes.append((an, ax, f.kind))
    lanes0 = I.lanes
    if f.kind == "pmap":
        I.event("pmap-call", mapped=f, args=args, axis=ax)
    try:
        if len(ax) == 1 and ax[0].dim.const is not None and ax[0].dim.const <= UNROLL_MAP and an is None:
            # short constant axis: one evaluation per element keeps the terms small
            rs = []
            for q in range(ax[0].dim.const):
                m = {ax[0].name: const(q)}
                rs.append(I.call(f.f, [I.subst_value(x, m) for x in newargs], {y: I.subst_value(x, m) for y, x in newkw.items()}))
            r = join_mapped(I, ax[0], rs)
        else:
            I.lanes = I.lanes + tuple(ax)
            r = I.call(f.f, newargs, newkw)
    finally:
        I.pmap_axes.pop()
        I.lanes = lanes0
    names = {v.name for v in ax}

    def put(v, spec):
        if isinstance(v, Tup):
            ss = spec.items if isinstance(spec, Tup) else [spec] * len(v.items)
            return Tup([put(x, s) for x, s in zip(v.items, ss)])
        if is_none(spec):
            return v
        if isinstance(v, Ref) and v.kind == "list":
            return I.list([put(x, spec) if not isinstance(x, Comp) else Comp(x.v, [put(y, spec) for y in x.items]) for x in I.content(v)])
        if isinstance(v, Ref) and v.kind == "dict":
            return I.new("dict", {q: put(x, spec) for q, x in I.content(v).items()}, v.cls)
        if isinstance(v, Tree):
            return Tree(v.v, put(v.leaf, spec), v.wrap)
        if isinstance(v, ConcatVec):
            return MappedVec(ax, v)
        if isinstance(v, (Const, StubObj, Fn, PyFn, Lib)):
            return v
        if isinstance(v, Choice):
            if any(nm in v.c.fv for nm in names):
                raise Unknown("mapped function returns a data dependent shape")
            return I.merge(v.c, put(v.a, spec), put(v.b, spec))
        t = tens(I, v)
        if t.axes is None:
            if not ax:
                return opaque(fn("expand_dims", t.body, K(0)))
            return opaque(fn("maplist", bindvars(ax, t.body)))
        k = int_arg(I, spec)
        axes = list(t.axes)
        k = k % (len(axes) + 1)
        axes.insert(k, ax)
        return Tensor(axes, t.body, t.kind, t.dt)
    return put(r, f.out_axes)


UNROLL_MAP = 6


def join_mapped(I, v, rs):
    """value depending on the index variable v from its values at v = 0, 1, ..."""
    r0 = rs[0]
    if all(x is r0 for x in rs):
        return r0
    if isinstance(r0, Tup):
        return Tup([join_mapped(I, v, [x.items[q] for x in rs]) for q in range(len(r0.items))], r0.cls)
    if isinstance(r0, Ref) and r0.kind == "list":
        cs = [I.content(x) for x in rs]
        if any(len(c) != len(cs[0]) for c in cs):
            raise Unknown("mapped function returns lists of different length")
        return I.list([join_mapped(I, v, [c[q] for c in cs]) for q in range(len(cs[0]))])
    if isinstance(r0, Ref) and r0.kind == "dict":
        cs = [I.content(x) for x in rs]
        return I.new("dict", {q: join_mapped(I, v, [c[q] for c in cs]) for q in cs[0]}, r0.cls)
    if isinstance(r0, Ref) and r0.kind == "dict":
        cs = [I.content(x) for x in rs]
        return I.new("dict", {q: join_mapped(I, v, [c[q] for c in cs]) for q in cs[0]}, r0.cls)
    if isinstance(r0, (Const, Fn, PyFn, Lib, StubObj)):
        if all(I.same(x, r0) for x in rs):
            return r0
    if isinstance(r0, Tree):
        return Tree(r0.v, join_mapped(I, v, [I.subst_value(x.leaf, {x.v.name: r0.v.as_poly()}) for x in rs]), r0.wrap)
    ts = [tens(I, x) for x in rs]
    if any(t.axes is None for t in ts):
        if all(t.axes is None for t in ts):
            return opaque(lut_terms(v, [t.body for t in ts]))
        raise Unknown("mapped function returns values of different rank")
    base = ts[0].opened()
    bodies = []
    for t in ts:
        if t.rank != base.rank:
            raise Unknown("mapped function returns values of different rank")
        for q in range(base.rank):
            if not equal(t.axis_size(0), base.axis_size(q)):
                raise Unknown("mapped function returns values of different shape")
            t = t.index_axis(0, lin(base.axes[q]))
        bodies.append(t.body)
    return Tensor(base.axes, lut_terms(v, bodies), base.kind, base.dt)


def lut_terms(v, bodies):
    if all(b == bodies[0] for b in bodies[1:]):
        return bodies[0]
    r = ZERO
    for q, b in enumerate(bodies):
        r = r + ind_eq0(v.as_poly() - const(q)) * b
    return r


class MappedVec(V):
    """batch of layout vectors: rows indexed by ax"""

    def __init__(self, ax, vec):
        self.ax, self.vec = ax, vec


def bindvars(ax, body):
    n = body
    for v in reversed(ax):
        n = SeqB(v, [n])
    return n


def find_axis(I, name):
    nm = name.val if isinstance(name, Const) else None
    for an, ax, kind in reversed(I.pmap_axes):
        if an == nm:
            return ax
    raise Unknown("collective over unbound axis name")


def _tree_or_tensor(I, v, f):
    if isinstance(v, Tup):
        return Tup([_tree_or_tensor(I, x, f) for x in v.items])
    if isinstance(v, Ref) and v.kind == "list":
        return I.list([_tree_or_tensor(I, x, f) for x in I.content(v)])
    if isinstance(v, Ref) and v.kind == "dict":
        return I.dict({q: _tree_or_tensor(I, x, f) for q, x in I.content(v).items()})
    return f(tens(I, v))


@lib("jax.lax.psum")
def _psum(I, a, k):
    ax = find_axis(I, arg(a, k, 1, "axis_name"))

    def f(t):
        b = t.body
        if t.axes is None and ax:
            return opaque(fn("sum", bindvars(ax, b)))
        for v in ax:
            b = sum_over(b, v)
        return Tensor(t.axes, b)
    return _tree_or_tensor(I, a[0], f)


@lib("jax.lax.pmean")
def _pmean(I, a, k):
    ax = find_axis(I, arg(a, k, 1, "axis_name"))

    def f(t):
        b = t.body
        for v in ax:
            b = sum_over(b, v) / v.dim.size
        return Tensor(t.axes, b)
    return _tree_or_tensor(I, a[0], f)


@lib("jax.lax.axis_index")
def _axidx(I, a, k):
    ax = find_axis(I, a[0])
    return scalar(ax[0].as_poly() if ax else ZERO)


@lib("jax.lax.cond")
def _cond(I, a, k):
    c = I.truth(a[0])
    ops = a[3:] if len(a) >= 3 else ()
    tf, ff = a[1], a[2]
    if len(a) == 5 and not (callable_v(a[2])):     # old style: pred, op, f, op, g
        return _cond_branch(I, c, lambda: I.call(a[2], [a[1]], {}), lambda: I.call(a[4], [a[3]], {}))
    return _cond_branch(I, c, lambda: I.call(tf, list(ops), {}), lambda: I.call(ff, list(ops), {}))


def callable_v(v):
    return isinstance(v, (Fn, Lib, Partial, BoundM, Mapped, PyFn))


def _cond_branch(I, c, fa, fb):
    if c == ONE:
        return fa()
    if c == ZERO:
        return fb()
    s0, g0 = I.store, I.guard
    I.store = I.fork()
    I.guard = g0 * c
    ra = fa()
    sa = I.store
    I.store = s0
    I.guard = g0 * (ONE - c)
    rb = fb()
    I.guard = g0
    I.store = I.merge_store(c, sa, I.store)
    return I.merge(c, ra, rb)


@lib("jax.lax.select")
def _laxselect(I, a, k):
    return _where(I, a, k)


@lib("jax.lax.switch")
def _switch(I, a, k):
    ix = poly_of(I, a[0])
    fs = seq_items(I, a[1])
    r = None
    for n, f in reversed(list(enumerate(fs))):
        v = I.call(f, list(a[2:]), {})
        r = v if r is None else I.merge(ind_eq0(ix - n), v, r)
    return r


@lib("jax.lax.dynamic_slice_in_dim")
def _dsid(I, a, k):
    t = tens(I, a[0])
    st, n = poly_of(I, arg(a, k, 1, "start_index")), poly_of(I, arg(a, k, 2, "slice_size"))
    ax = arg(a, k, 3, "axis")
    ax = int_arg(I, ax) if ax is not None else 0
    if t.axes is None:
        return opaque(fn("dslice", t, st, n, K(ax)))
    ax %= t.rank
    return take_range(t, ax, clamp_start(st, t.axis_size(ax), n), n, ONE)


def clamp_start(st, size, n):
    """XLA clamps the start index so that the slice stays in range"""
    hi = size - n
    if ind_lt0(hi - st) == ZERO and ind_lt0(st) == ZERO:
        return st
    if hi == st:
        return st
    return fn("clampstart", st, hi, props="i")


def take_range(t, ax, st, n, step):
    t = t.opened()
    if n.const_value() == CQ1:
        r = t.index_axis(ax, st)
        return Tensor(r.axes[:ax] + ((),) + r.axes[ax:], r.body, t.kind, t.dt)
    if st.is_zero() and step == ONE and equal(n, t.axis_size(ax)):
        return t
    w = var(Dim.of_size(n))
    r = t.index_axis(ax, st + w.as_poly() * step)
    return Tensor(r.axes[:ax] + ((w,),) + r.axes[ax:], r.body, t.kind, t.dt)


@lib("jax.lax.dynamic_index_in_dim")
def _diid(I, a, k):
    t = tens(I, a[0])
    ix = poly_of(I, a[1])
    ax = arg(a, k, 2, "axis")
    ax = int_arg(I, ax) if ax is not None else 0
    kd = arg(a, k, 3, "keepdims")
    r = t.index_axis(ax % t.rank, ix)
    if kd is None or I.truth(kd) == ONE:
        r = T.expand_dims(r, ax)
    return r


@lib("jax.lax.dynamic_slice")
def _dslice(I, a, k):
    t = tens(I, a[0])
    st = shape_arg(I, a[1])
    sz = shape_arg(I, a[2])
    if t.axes is None:
        return opaque(fn("dslice", t, Seq(st), Seq(sz)))
    for q, (s, n) in enumerate(zip(st, sz)):
        t = take_range(t, q, clamp_start(s, t.axis_size(q), n), n, ONE)
    return t


@lib("jax.lax.dynamic_update_slice", "jax.lax.dynamic_update_slice_in_dim")
def _dus(I, a, k):
    t, u = tens(I, a[0]), tens(I, a[1])
    if t.axes is None or u.axes is None:
        return opaque(fn("dus", t, u, I.node(a[2])))
    if isinstance(a[2], (Tup, Ref)):
        st = shape_arg(I, a[2])
    else:
        ax = arg(a, k, 3, "axis")
        ax = int_arg(I, ax) if ax is not None else 0
        st = [ZERO] * t.rank
        st[ax] = poly_of(I, a[2])
    if t.rank != u.rank or len(st) != t.rank:
        raise ShapeError("dynamic_update_slice rank mismatch")
    t, u = t.opened(), u.opened()
    cond = ONE
    ub = u
    axes = []
    for q in range(t.rank):
        n = u.axis_size(q)
        s = clamp_start(st[q], t.axis_size(q), n)
        if not t.axes[q]:
            ub = ub.index_axis(0, ZERO)
            axes.append(())
            continue
        w = t.axes[q][0] if len(t.axes[q]) == 1 else None
        if w is None:
            if equal(n, t.axis_size(q)) and s.is_zero():
                ub = ub.index_axis(0, lin(t.axes[q]))
                axes.append(t.axes[q])
                continue
            raise Unknown("update slice on flattened axis")
        x = w.as_poly() - s
        if not (equal(n, t.axis_size(q)) and s.is_zero()):
            cond = cond * (ONE - ind_lt0(x)) * ind_lt0(x - n)
        ub = ub.index_axis(0, x)
        axes.append((w,))
    return Tensor(axes, ite(cond, ub.body, t.body), t.kind, t.dt)


def lin(ax):
    r = ZERO
    for v in ax:
        r = r * v.dim.size + v.as_poly()
    return r


# ---- scan / fori_loop ------------------------------------------------------------
@lib("jax.lax.scan", "flax.linen.scan_call")
def _scan(I, a, k):
    f, init = arg(a, k, 0, "f"), arg(a, k, 1, "init")
    xs = arg(a, k, 2, "xs")
    length = arg(a, k, 3, "length")
    rev = k.get("reverse")
    if rev is not None and I.truth(rev) != ZERO:
        raise Unknown("reverse scan")
    return scan_summary(I, f, init, xs, length)


def scan_axis(I, xs, length):
    """-> (dim, element(v))"""
    dims = []

    def walk(v):
        if isinstance(v, Tup):
            for x in v.items:
                walk(x)
        elif isinstance(v, Ref) and v.kind in ("list",):
            for x in I.content(v):
                walk(x)
        elif is_none(v):
            pass
        elif isinstance(v, Tree):
            walk(v.leaf)
        else:
            t = tens(I, v)
            if t.axes is None:
                dims.append(Dim.named("len(%s)" % t.body.key))
            else:
                if t.rank == 0:
                    raise ShapeError("scan over scalar")
                ax = t.axes[0]
                dims.append(ax[0].dim if len(ax) == 1 else Dim.of_size(t.axis_size(0)))
    if xs is not None:
        walk(xs)
    if not dims:
        if length is None:
            raise Unknown("scan without length")
        n = poly_of(I, length)
        return Dim.of_size(n), lambda w: NONE
    # prefer a named dim
    def el(v, w):
        if isinstance(v, Tup):
            return Tup([el(x, w) for x in v.items])
        if isinstance(v, Ref) and v.kind == "list":
            return I.list([el(x, w) for x in I.content(v)])
        if is_none(v):
            return v
        if isinstance(v, Tree):
            return Tree(v.v, el(v.leaf, w), v.wrap)
        t = tens(I, v)
        if t.axes is None:
            return opaque(fn("item", t.body, w))
        return t.index_axis(0, w)
    return dims[0], lambda w: el(xs, w)


def scan_summary(I, f, init, xs, length=None):
    dim, elem = scan_axis(I, xs, length)
    n = dim.const
    if n is not None and n <= 12:
        carry = init
        ys = []
        for i in range(n):
            r = I.call(f, [carry, elem(const(i))], {})
            carry, y = I.unpack(r, 2)
            ys.append(y)
        return Tup([carry, stack_values(I, ys)])
    v = var(dim)
    names = "s%d" % nf.fresh_id()
    sv = symbolic_carry(I, init, names)
    r = I.call(f, [sv, elem(v.as_poly())], {})
    post, y = I.unpack(r, 2)
    # closed forms where the recurrence is a sum / scatter / independent of the carry
    dep = {a.name: a for a in I.value_syms(sv)}
    dep = {}
    for t in flat_vals(I, sv):
        for a in (t.body.atoms() if isinstance(t, Tensor) else ()):
            if a.kind == "sym" and str(a.name).startswith("%" + names):
                dep[a] = None
    carried_atoms = dep
    inl, fin = solve_carry(I, init, sv, post, v, carried_atoms, dim)
    if inl is not None:
        y2 = replace_carry(I, y, sv, inl)
        ys = add_axis(I, y2, v)
        return Tup([fin, ys])
    # opaque recurrence with a canonical key
    rec = fn("scanrec", *[I.node(x) for x in flat_vals(I, init)], rec_node(I, v, sv, post, names))
    fin = opaque_carry(I, init, rec, "last")
    inl = opaque_carry(I, init, rec, "at", v.as_poly())
    y2 = replace_carry(I, y, sv, inl)
    I.loops.append(ScanRec(dim, v, init, sv, post, y, rec, I.where(), I.curfn))
    return Tup([fin, add_axis(I, y2, v)])


class ScanRec:
    kind = "scan"

    def __init__(self, dim, var, init, sv, post, y, rec, where, fn):
        self.dim, self.var, self.init, self.sv, self.post, self.y, self.rec, self.where, self.fn = dim, var, init, sv, post, y, rec, where, fn


def flat_vals(I, v):
    if isinstance(v, Tup):
        return [y for x in v.items for y in flat_vals(I, x)]
    if isinstance(v, Ref) and v.kind == "list":
        return [y for x in I.content(v) for y in flat_vals(I, x)]
    if isinstance(v, Ref) and v.kind == "dict":
        c = I.content(v)
        return [y for q in sorted(c, key=str) for y in flat_vals(I, c[q])]
    return [v]


def symbolic_carry(I, v, name):
    cnt = itertools.count()

    def go(x):
        if isinstance(x, Tup):
            return Tup([go(y) for y in x.items])
        if isinstance(x, Ref) and x.kind == "list":
            return I.list([go(y) for y in I.content(x)])
        if isinstance(x, Ref) and x.kind == "dict":
            return I.dict({q: go(y) for q, y in I.content(x).items()})
        if is_none(x):
            return x
        t = tens(I, x)
        s = I.symbolic_like(t, "%s_%d" % (name, next(cnt)), None)
        if t.kind:
            s = Tensor(s.axes, s.body, t.kind)
        return s
    return go(v)


def solve_carry(I, init, sv, post, v, atoms, dim):
    fi, fs, fp = flat_vals(I, init), flat_vals(I, sv), flat_vals(I, post)
    if len(fs) != len(fp):
        raise ShapeError("scan carry structure changes")
    inl, fin = [], []
    for a, s, p in zip(fi, fs, fp):
        if is_none(s):
            inl.append(s)
            fin.append(p)
            continue
        a, p = tens(I, a), tens(I, p)
        r = I.solve_rec(a, s, p, v, atoms)
        if r is None:
            return None, None
        inl.append(r[0])
        fin.append(r[1])
    return rebuild(I, sv, inl), rebuild(I, sv, fin)


def rebuild(I, tmpl, flat):
    it = iter(flat)

    def go(x):
        if isinstance(x, Tup):
            return Tup([go(y) for y in x.items])
        if isinstance(x, Ref) and x.kind == "list":
            return I.list([go(y) for y in I.content(x)])
        if isinstance(x, Ref) and x.kind == "dict":
            c = I.content(x)
            vals = {q: go(c[q]) for q in sorted(c, key=str)}
            return I.dict({q: vals[q] for q in c})
        return next(it)
    return go(tmpl)


def opaque_carry(I, init, rec, what, *ix):
    fi = flat_vals(I, init)
    out = []
    for n, x in enumerate(fi):
        if is_none(x):
            out.append(x)
            continue
        t = tens(I, x)
        if t.axes is None:
            out.append(opaque(fn("carry_" + what, rec, const(n), *ix)))
        else:
            t = t.opened()
            out.append(Tensor(t.axes, fn("carry_" + what, rec, const(n), *ix, *[u.as_poly() for ax in t.axes for u in ax]), t.kind))
    return rebuild(I, init, out)


def rec_node(I, v, sv, post, names):
    from .interp import RenamedKey
    n = SeqB(v, [I.node(x) for x in flat_vals(I, post)])
    return RenamedKey(n, {names: "#c"})


def replace_carry(I, val, sv, inl):
    for s, x in zip(flat_vals(I, sv), flat_vals(I, inl)):
        if not isinstance(s, Tensor):
            continue
        val = replace_indexed(I, val, s, x)
    return val


def replace_indexed(I, val, s, x):
    """replace the symbol array s[...] by the tensor x everywhere in val"""
    a = s.body.single_atom()
    if a is None:
        return val
    return map_value(I, val, lambda p: nf.replace_fn(p, a.name, lambda args: at_index(x, args)))


def at_index(x, args):
    if x.axes is None:
        return x.body
    vs = [v for ax in x.axes for v in ax]
    return x.opened().body if False else x.body.subst({v.name: p for v, p in zip(vs, args)})


def map_value(I, v, f):
    if isinstance(v, Tensor):
        return v.map_polys(f)
    if isinstance(v, Tup):
        return Tup([map_value(I, x, f) for x in v.items])
    if isinstance(v, Choice):
        return I.merge(f(v.c), map_value(I, v.a, f), map_value(I, v.b, f))
    if isinstance(v, Ref) and v.kind == "list":
        return I.list([map_value(I, x, f) for x in I.content(v)])
    if isinstance(v, Ref) and v.kind == "dict":
        return I.dict({q: map_value(I, x, f) for q, x in I.content(v).items()})
    if isinstance(v, Comp):
        return Comp(v.v, [map_value(I, x, f) for x in v.items])
    return v


def add_axis(I, y, v):
    if isinstance(y, Tup):
        return Tup([add_axis(I, x, v) for x in y.items])
    if isinstance(y, Ref) and y.kind == "list":
        return I.list([add_axis(I, x, v) for x in I.content(y)])
    if isinstance(y, Ref) and y.kind == "dict":
        return I.new("dict", {q: add_axis(I, x, v) for q, x in I.content(y).items()}, y.cls)
    if is_none(y):
        return y
    t = tens(I, y)
    if t.axes is None:
        return opaque(fn("maplist", SeqB(v, [t.body])))
    w = var(v.dim)
    t = t.opened()
    return Tensor([(w,)] + list(t.axes), t.body.subst({v.name: w.as_poly()}), t.kind)


def stack_values(I, ys):
    if not ys:
        return NONE
    y = ys[0]
    if isinstance(y, Tup):
        return Tup([stack_values(I, [z.items[q] for z in ys]) for q in range(len(y.items))])
    if is_none(y):
        return y
    if isinstance(y, Ref) and y.kind == "list":
        return I.list([stack_values(I, [I.content(z)[q] for z in ys]) for q in range(len(I.content(y)))])
    if isinstance(y, Ref) and y.kind == "dict":
        return I.new("dict", {q: stack_values(I, [I.content(z)[q] for z in ys]) for q in I.content(y)}, y.cls)
    return T.stack_literal([tens(I, z) for z in ys])


@lib("jax.lax.fori_loop")
def _fori(I, a, k):
    lo, hi, f, init = poly_of(I, a[0]), poly_of(I, a[1]), a[2], a[3]
    n = (hi - lo).int_value()
    if n is not None and n <= 12:
        c = init
        for i in range(n):
            c = I.call(f, [scalar(lo + i), c], {})
        return c
    dim = Dim.of_size(hi - lo)
    v = var(dim)
    names = "f%d" % nf.fresh_id()
    sv = symbolic_carry(I, init, names)
    post = I.call(f, [scalar(lo + v.as_poly()), sv], {})
    dep = {}
    for t in flat_vals(I, sv):
        for x in (t.body.atoms() if isinstance(t, Tensor) else ()):
            if x.kind == "sym" and str(x.name).startswith("%" + names):
                dep[x] = None
    inl, fin = solve_carry(I, init, sv, post, v, dep, dim)
    if inl is not None:
        return fin
    rec = fn("scanrec", *[I.node(x) for x in flat_vals(I, init)], rec_node(I, v, sv, post, names))
    I.loops.append(ScanRec(dim, v, init, sv, post, NONE, rec, I.where(), I.curfn))
    return opaque_carry(I, init, rec, "last")


# random ---------------------------------------------------------------------------
def keyt(I, v):
    t = tens(I, v)
    return t


@lib("jax.random.PRNGKey", "jax.random.key")
def _prngkey(I, a, k):
    return Tensor((), fn("PRNGKey", I.node(a[0])), kind="key")


@lib("jax.random.split")
def _split(I, a, k):
    key = keyt(I, a[0])
    n = arg(a, k, 1, "num")
    nn = poly_of(I, n) if n is not None and not isinstance(n, Tup) else (const(2) if n is None else None)
    I.event("rng", op="split", key=key, n=nn)
    if nn is None:
        sh = shape_arg(I, n)
        ax = make_axes(sh)
        return Tensor(ax, fn("split", key.body, Seq(sh), *[v.as_poly() for x in ax for v in x]), kind="key")
    if key.axes:
        raise ShapeError("split of a batch of keys")
    ax = make_axes([nn])
    return Tensor(ax, fn("split", key.body, nn, *[v.as_poly() for x in ax for v in x]), kind="key")


@lib("jax.random.fold_in")
def _foldin(I, a, k):
    key = keyt(I, a[0])
    return Tensor(key.axes, fn("fold_in", key.body, I.node(a[1])), kind="key")


def draw(I, name, key, shape, args, props):
    key = keyt(I, key)
    I.event("rng", op=name, key=key)
    ax = make_axes(shape)
    return Tensor(ax, fn(name, key.body, *args, *[v.as_poly() for x in ax for v in x], props=props))


def shp(I, v):
    return shape_arg(I, v) if v is not None and not is_none(v) else []


@lib("jax.random.uniform")
def _uniform(I, a, k):
    lo, hi = arg(a, k, 3, "minval"), arg(a, k, 4, "maxval")
    t = draw(I, "uniform", a[0], shp(I, arg(a, k, 1, "shape")), [], "rn")
    if lo is not None or hi is not None:
        l = poly_of(I, lo) if lo is not None else ZERO
        h = poly_of(I, hi) if hi is not None else ONE
        t = elementwise(lambda x: l + (h - l) * x, t)
    return t


@lib("jax.random.normal")
def _normal(I, a, k):
    return draw(I, "normal", a[0], shp(I, arg(a, k, 1, "shape")), [], "r")


@lib("jax.random.randint")
def _randint(I, a, k):
    lo, hi = arg(a, k, 2, "minval"), arg(a, k, 3, "maxval")
    return draw(I, "randint", a[0], shp(I, arg(a, k, 1, "shape")), [I.node(lo), I.node(hi)], "i")


@lib("jax.random.bernoulli")
def _bernoulli(I, a, k):
    p = arg(a, k, 1, "p")
    p = tens(I, p) if p is not None else num(F(1, 2))
    sh = arg(a, k, 2, "shape")
    if sh is None and p.axes is not None:
        shape = p.shape()
    else:
        shape = shp(I, sh)
    key = keyt(I, a[0])
    I.event("rng", op="bernoulli", key=key)
    ax = make_axes(shape)
    u = Tensor(ax, fn("uniform", key.body, *[v.as_poly() for x in ax for v in x], props="rn"))
    return elementwise(lambda x, y: ind_lt0(x - y), u, p)


@lib("jax.random.categorical")
def _categorical(I, a, k):
    lg = tens(I, arg(a, k, 1, "logits"))
    key = keyt(I, a[0])
    ax = arg(a, k, 2, "axis")
    I.event("rng", op="categorical", key=key)
    if lg.axes is None:
        return opaque(fn("categorical", key.body, lg, props="i"))
    n = int_arg(I, ax) if ax is not None else -1
    n %= lg.rank
    o = lg.opened()
    rest = o.axes[:n] + o.axes[n + 1:]
    w = o.axes[n]
    return Tensor(rest, fn("categorical", key.body, bindvars(w, o.body) if w else o.body, *[v.as_poly() for x in rest for v in x], props="i"))


@lib("jax.random.choice")
def _choice(I, a, k):
    key = keyt(I, a[0])
    I.event("rng", op="choice", key=key)
    sh = shp(I, arg(a, k, 2, "shape"))
    ax = make_axes(sh)
    rest = [Seq([K(q), I.node(k[q])]) for q in sorted(k) if q != "shape"]
    return Tensor(ax, fn("choice", key.body, I.node(a[1]), *rest, *[v.as_poly() for x in ax for v in x]))


@lib("jax.random.permutation")
def _perm(I, a, k):
    key = keyt(I, a[0])
    I.event("rng", op="permutation", key=key)
    return opaque(fn("permutation", key.body, I.node(a[1])))


# nn ----------------------------------------------------------------------------------
@lib("jax.nn.one_hot")
def _onehot(I, a, k):
    x = tens(I, a[0])
    n = poly_of(I, arg(a, k, 1, "num_classes"))
    k.get("dtype")
    if x.axes is None:
        return opaque(fn("one_hot", x, n))
    x = x.opened()
    w = var(Dim.of_size(n))
    return Tensor(x.axes + ((w,),), ind_eq0(x.body - w.as_poly()))


@lib("jax.nn.log_softmax")
def _logsoftmax(I, a, k):
    x = tens(I, a[0])
    ax = arg(a, k, 1, "axis")
    if x.axes is None or x.rank == 0 or isinstance(ax, (Tup, Ref)):
        return opaque(fn("log_softmax", I.node(x)))
    q = -1 if is_none(ax) else int_arg(I, ax)
    n = I.call_lib("np.log", [I.call_lib("np.sum", [I.call_lib("np.exp", [x], {})], dict(axis=num(q), keepdims=Const(True)))], {})
    return binop(I, ast.Sub(), x, n)


@lib("jax.nn.softmax", "flax.linen.softmax")
def _softmax(I, a, k):
    r = _logsoftmax(I, a, k)
    return I.call_lib("np.exp", [r], {})


@lib("flax.linen.transforms.scan", "flax.linen.scan")
def _flaxscan(I, a, k):
    """lifted scan of a module method over the leading axis of its inputs; parameters are shared between the steps"""
    f = a[0]
    for q in ("in_axes", "out_axes"):
        if q in k and not (isinstance(k[q], Tensor) and k[q].axes == () and k[q].body.is_zero()):
            raise Unknown("scan over another axis")
    if "reverse" in k and I.truth(k["reverse"]) != ZERO:
        raise Unknown("reverse scan")
    if len(a) > 1 or any(q not in ("variable_broadcast", "split_rngs", "variable_axes", "variable_carry", "in_axes", "out_axes", "length", "reverse") for q in k):
        raise Unknown("lifted scan")

    def call(I, b, kw):
        if len(b) != 3 or kw:
            raise Unknown("lifted scan over several inputs")
        return scan_summary(I, PyFn(lambda I, c, _: I.call(f, [b[0]] + list(c), {}), "scanned"), b[1], b[2], k.get("length"))
    return PyFn(call, "scan")


for _n in ("relu", "elu", "sigmoid", "softplus", "gelu", "leaky_relu"):
    def _mk2(n):
        def h(I, a, k):
            return elementwise(lambda x: fn(n, x, props="r" if x.is_real() else ""), tens(I, a[0]))
        LIB["jax.nn." + n] = h
        LIB["flax.linen." + n] = h
    _mk2(_n)
LIB["flax.linen.tanh"] = LIB["np.tanh"]
LIB["flax.linen.log_softmax"] = LIB["jax.nn.log_softmax"]
LIB["flax.linen.one_hot"] = LIB["jax.nn.one_hot"]


# grad -----------------------------------------------------------------------------------
@lib("jax.value_and_grad", "jax.jacrev", "jax.jacfwd", "jax.linearize", "jax.jvp", "jax.vjp", "jax.hessian")
def _grad_unknown(I, a, k):
    return PyFn(lambda I2, a2, k2: I2.unknown("differential operator", *a2), "grad")


@lib("jax.grad")
def _grad(I, a, k):
    """jax.grad of a real scalar function: d/dx for real leaves, d/dx - i d/dy for complex leaves.
    Derivatives of the functions listed in I.diff are kept as uninterpreted functions (see diff_net)."""
    f = a[0]
    an = arg(a, k, 1, "argnums")
    holo = k.get("holomorphic")
    if holo is not None and not (isinstance(holo, Const) and not holo.val):
        return PyFn(lambda I2, a2, k2: I2.unknown("holomorphic differentiation", *a2), "grad")
    n = 0 if an is None else int_arg(I, an)

    def g(I2, a2, k2):
        P0 = a2[n]
        fl = []
        collect(I2, P0, fl)
        if not all(isinstance(x, Tensor) and x.axes is not None for x in fl):
            raise Unknown("differentiation with respect to a structure that is not a tree of arrays: %r" % (fl,))
        I2.in_grad = getattr(I2, "in_grad", 0) + 1
        try:
            r = tens(I2, I2.call(f, list(a2), k2))
        finally:
            I2.in_grad -= 1
        if r.axes is None or r.rank:
            raise Unknown("gradient of a function that is not scalar valued")
        body = r.body
        if not body.is_real() and not nf.equal(body, body.conjugate()):
            I2.event("complex-grad")
            raise Unknown("gradient of a complex function")

        def leaf(x):
            o = x.opened()
            ix = [lin(ax) for ax in o.axes]
            d = diff(I2, body, x, ix, "x")
            if not leaf_real(I2, x):
                d = d - diff(I2, body, x, ix, "y") * const(1j)
            return Tensor(o.axes, nostop(d), x.kind, x.dt)
        it = iter([leaf(x) for x in fl])
        return rebuild_tree(I2, P0, it)
    return PyFn(g, "grad")


def nostop(p):
    return replace_fn(p, "stopgrad", lambda *a: a[0]) if any(x.kind == "fn" and x.name == "stopgrad" for x in p.atoms()) else p


def leaf_real(I, x):
    return x.body.is_real()


def leaf_syms(x):
    return {a.name for a in x.body.atoms() if a.kind == "sym"}


def diff(I, p, leaf, ix, c):
    """derivative of a term with respect to the real (c=x) or imaginary (c=y) part of entry ix of an array of symbols"""
    syms = leaf_syms(leaf)
    out = ZERO
    for m, co in p.terms.items():
        if not any(a.kind == "sym" and a.name in syms for f, _ in m.factors for a in f.atoms()):
            continue
        fs, nb = m.open()
        for q, (a, e) in enumerate(fs):
            ap = a if isinstance(a, Poly) else a.as_poly()
            at = ap.single_atom() if isinstance(a, Poly) else a
            if at is None:
                da = diff(I, ap, leaf, ix, c)
            else:
                da = diff_atom(I, at, leaf, ix, c, syms)
            if da.is_zero():
                continue
            r = da.scale(CQ(e)) * (ap if at is None or at.kind != "base" else at.args[0]).pow(e - 1)
            for q2, (b, e2) in enumerate(fs):
                if q2 != q:
                    bp = b if isinstance(b, Poly) else b.as_poly()
                    if isinstance(b, Atom) and b.kind == "base":
                        bp = b.args[0]
                    r = r * bp.pow(e2)
            out = out + mul_under_binders([], nb, r).scale(co)
    return out


def diff_atom(I, a, leaf, ix, c, syms):
    if not any(x.kind == "sym" and x.name in syms for x in a.atoms()):
        return ZERO
    if a.kind == "base":
        return diff(I, a.args[0], leaf, ix, c)
    if a.kind == "sym":
        # an entry of the differentiated array itself
        lo = leaf.opened()
        la = lo.body.single_atom()
        if la is None or la.name != a.name or la.conj or len(la.args) != len(a.args):
            raise Unknown("derivative with respect to a transformed leaf")
        r = ONE
        for x, y in zip(leaf_index(leaf, ix), a.args):
            r = r * delta(x, y)
        if c == "y":
            r = r.scale(CQ(0, -1 if a.conj else 1))
        return r
    if a.kind == "fn":
        if a.name == "stopgrad":
            return ZERO
        if a.name in getattr(I, "diff_fns", {}):
            return I.diff_fns[a.name](a, leaf, ix, c)
        if len(a.args) == 1 and isinstance(a.args[0], Poly) and not a.conj:
            x = a.args[0]
            d = {"exp": lambda: fn("exp", x), "log": lambda: x.pow(-1), "sin": lambda: fn("cos", x), "cos": lambda: -fn("sin", x),
                 "tanh": lambda: ONE - fn("tanh", x) * fn("tanh", x)}.get(a.name)
            if d is not None:
                return d() * diff(I, x, leaf, ix, c)
    raise Unknown("derivative of %s" % a.name)


def leaf_index(leaf, ix):
    t = leaf
    for i in ix:
        t = t.index_axis(0, i)
    return t.body.single_atom().args


# trees -------------------------------------------------------------------------------------
@lib("tree.flatten")
def _tflatten(I, a, k):
    v = a[0]
    return Tup([tree_leaves_list(I, v), TreeDef(v)])


class TreeDef(V):
    def __init__(self, v):
        self.v = v


def tree_leaves_list(I, v):
    """-> list value"""
    out = []
    collect(I, v, out)
    return I.list(out)


def collect(I, v, out):
    if isinstance(v, Tree):
        tmp = []
        collect(I, v.leaf, tmp)
        out.append(Comp(v.v, tmp))
    elif isinstance(v, Tup):
        for x in v.items:
            collect(I, x, out)
    elif isinstance(v, Ref) and v.kind == "list":
        for x in I.content(v):
            if isinstance(x, Comp):
                tmp = []
                for y in x.items:
                    collect(I, y, tmp)
                out.append(Comp(x.v, tmp))
            else:
                collect(I, x, out)
    elif isinstance(v, Ref) and v.kind == "dict":
        c = I.content(v)
        for q in sorted(c, key=str):
            collect(I, c[q], out)
    elif is_none(v):
        pass
    else:
        out.append(v)


@lib("tree.leaves")
def _tleaves(I, a, k):
    return tree_leaves_list(I, a[0])


@lib("tree.structure")
def _tstruct(I, a, k):
    return TreeDef(a[0])


@lib("tree.map")
def _tmap(I, a, k):
    f, ts = a[0], a[1:]
    if "is_leaf" in k:
        raise Unknown("tree_map is_leaf")
    return tmap(I, f, ts)


def tmap(I, f, ts):
    t = ts[0]
    if isinstance(t, Tree):
        if all(isinstance(x, Tree) for x in ts):
            leaves = [t.leaf] + [I.subst_value(x.leaf, {x.v.name: t.v.as_poly()}) for x in ts[1:]]
            return Tree(t.v, I.call(f, leaves, {}), t.wrap)
        raise Unknown("tree_map over different structures")
    if isinstance(t, Tup):
        return Tup([tmap(I, f, [x.items[q] if isinstance(x, Tup) else I.content(x)[q] for x in ts]) for q in range(len(t.items))])
    if isinstance(t, Ref) and t.kind == "list":
        out = []
        cs = [I.content(x) if isinstance(x, Ref) else x.items for x in ts]
        for q, x in enumerate(cs[0]):
            if isinstance(x, Comp):
                if len(ts) > 1:
                    ys = [c[q] for c in cs]
                    its = []
                    for z in range(len(x.items)):
                        its.append(tmap(I, f, [x.items[z]] + [I.subst_value(y.items[z], {y.v.name: x.v.as_poly()}) for y in ys[1:]]))
                    out.append(Comp(x.v, its))
                else:
                    out.append(Comp(x.v, [tmap(I, f, [y]) for y in x.items]))
            else:
                out.append(tmap(I, f, [c[q] for c in cs]))
        return I.list(out)
    if isinstance(t, Ref) and t.kind == "dict":
        cs = [I.content(x) for x in ts]
        return I.new("dict", {q: tmap(I, f, [c[q] for c in cs]) for q in cs[0]}, t.cls)
    if is_none(t):
        return t
    return I.call(f, list(ts), {})


@lib("tree.unflatten")
def _tunflat(I, a, k):
    d, leaves = a[0], a[1]
    if isinstance(d, TreeDef):
        fl = []
        collect(I, d.v, fl)
        its = seq_items(I, leaves)
        if its is not None and isinstance(d.v, Tree):
            if len(its) == 1 and isinstance(its[0], Comp) and len(its[0].items) == 1:
                return Tree(its[0].v, its[0].items[0], d.v.wrap)
        if its is not None and len(its) == len(fl):
            it = iter(its)
            return rebuild_tree(I, d.v, it)
    return opaque(fn("unflatten", I.node(d.v) if isinstance(d, TreeDef) else I.node(d), I.node(leaves)))


def rebuild_tree(I, v, it):
    if isinstance(v, Tup):
        return Tup([rebuild_tree(I, x, it) for x in v.items])
    if isinstance(v, Ref) and v.kind == "list":
        return I.list([rebuild_tree(I, x, it) for x in I.content(v)])
    if isinstance(v, Ref) and v.kind == "dict":
        c = I.content(v)
        vals = {q: rebuild_tree(I, c[q], it) for q in sorted(c, key=str)}
        return I.new("dict", {q: vals[q] for q in c}, v.cls)
    if is_none(v):
        return v
    return next(it)


@lib("tree.reduce")
def _treduce(I, a, k):
    return I.unknown("tree reduce", *a)


@lib("flax.core.frozen_dict.freeze", "flax.core.frozen_dict.unfreeze", "flax.core.freeze", "flax.core.unfreeze", "flax.core.FrozenDict",
     "flax.core.frozen_dict.FrozenDict")
def _freeze(I, a, k):
    v = a[0] if a else I.dict({})
    if isinstance(v, Ref) and v.kind == "dict":
        return I.new("dict", dict(I.content(v)), v.cls)
    return v


@lib("copy.deepcopy")
def _deepcopy(I, a, k):
    return deepcopy_v(I, a[0])


def deepcopy_v(I, v):
    if isinstance(v, Ref) and v.kind in ("list", "dict", "obj"):
        c = I.content(v)
        if v.kind == "list":
            return I.list([deepcopy_v(I, x) for x in c])
        return I.new(v.kind, {q: deepcopy_v(I, x) for q, x in c.items()}, v.cls)
    if isinstance(v, Tup):
        return Tup([deepcopy_v(I, x) for x in v.items], v.cls)
    if isinstance(v, Tensor):
        return Tensor(v.axes, v.body, v.kind, v.dt)
    return v


@lib("copy.copy")
def _copy(I, a, k):
    v = a[0]
    if isinstance(v, Ref) and v.kind in ("list", "dict", "obj"):
        c = I.content(v)
        return I.new(v.kind, list(c) if isinstance(c, list) else dict(c), v.cls)
    return v


# mpi ----------------------------------------------------------------------------------------
LIB["mpi4py.MPI.COMM_WORLD.Get_rank"] = lambda I, a, k: scalar(RK.as_poly())
LIB["mpi4py.MPI.COMM_WORLD.Get_size"] = lambda I, a, k: scalar(RK.dim.size)


def over_ranks(body):
    w = var(RK.dim)
    return w, body.subst({RK.name: w.as_poly()})


def mpi_sum(t):
    w, b = over_ranks(t.body)
    if t.axes is None:
        return opaque(fn("sum", SeqB(w, [b])))
    return Tensor(t.axes, sum_over(b, w))


def is_sum(I, op):
    return op is None or (isinstance(op, Lib) and op.name == "mpi4py.MPI.SUM")


@lib("mpi4py.MPI.COMM_WORLD.Allreduce")
def _Allreduce(I, a, k):
    send, recv = arg(a, k, 0, "sendbuf"), arg(a, k, 1, "recvbuf")
    op = arg(a, k, 2, "op")
    I.event("collective", op="Allreduce", args=a, kw=k)
    t = tens(I, send)
    if is_sum(I, op):
        r = mpi_sum(t)
    else:
        r = Tensor(t.axes, fn("allreduce:" + I.node(op).key, SeqB(*(lambda w, b: (w, [b]))(*over_ranks(t.body)))))
    if isinstance(recv, Tensor):
        I.rebind(recv, r)
    return NONE


@lib("mpi4py.MPI.COMM_WORLD.allreduce")
def _allreduce(I, a, k):
    op = arg(a, k, 1, "op")
    I.event("collective", op="allreduce", args=a, kw=k)
    t = tens(I, a[0])
    if is_sum(I, op):
        return mpi_sum(t)
    return Tensor(t.axes, fn("allreduce:" + I.node(op).key, SeqB(*(lambda w, b: (w, [b]))(*over_ranks(t.body)))))


def on_root(I, v, root):
    return I.subst_value(v, {RK.name: root})


@lib("mpi4py.MPI.COMM_WORLD.bcast")
def _bcast(I, a, k):
    root = arg(a, k, 1, "root")
    root = poly_of(I, root) if root is not None else ZERO
    I.event("collective", op="bcast", args=a, kw=k)
    return on_root(I, arg(a, k, 0, "obj", NONE), root)


@lib("mpi4py.MPI.COMM_WORLD.Bcast")
def _Bcast(I, a, k):
    root = arg(a, k, 1, "root")
    root = poly_of(I, root) if root is not None else ZERO
    I.event("collective", op="Bcast", args=a, kw=k)
    b = a[0]
    its = seq_items(I, b)
    if its is not None:
        b = its[0]
    if isinstance(b, Tensor):
        I.rebind(b, on_root(I, b, root))
    elif isinstance(b, Choice):
        I.rebind_value(b, on_root(I, b, root))
    return NONE


@lib("mpi4py.MPI.COMM_WORLD.Barrier", "mpi4py.MPI.COMM_WORLD.barrier")
def _barrier(I, a, k):
    I.event("collective", op="Barrier", args=a, kw=k)
    return NONE


@lib("mpi4py.MPI.COMM_WORLD.allgather")
def _allgather(I, a, k):
    I.event("collective", op="allgather", args=a, kw=k)
    w = var(RK.dim)
    return I.list([Comp(w, [I.subst_value(a[0], {RK.name: w.as_poly()})])])


@lib("mpi4py.MPI.COMM_WORLD.gather")
def _gather(I, a, k):
    I.event("collective", op="gather", args=a, kw=k)
    w = var(RK.dim)
    return I.list([Comp(w, [I.subst_value(a[0], {RK.name: w.as_poly()})])])


# misc ----------------------------------------------------------------------------------------
@lib("time.perf_counter", "time.time", "time.process_time")
def _time(I, a, k):
    return scalar(fn("clock", const(nf.fresh_id()), props="r"))


@lib("warnings.warn", "warnings.filterwarnings", "print", "jax.config.update", "sys.path.append", "sys.stdout.flush")
def _noop(I, a, k):
    I.event("output", args=a)
    return NONE


@lib("jax.devices", "jax.local_devices")
def _devices(I, a, k):
    v = var(Dim.named("dev"))
    return I.list([Comp(v, [opaque(fn("device", v.as_poly()))])])


@lib("math.isclose")
def _isclose(I, a, k):
    ps = sorted([poly_of(I, a[0]), poly_of(I, a[1])], key=lambda p: p.key)
    return scalar(fn("isclose", *ps, props="bi"))


for _n, _f in (("sqrt", "np.sqrt"), ("exp", "np.exp"), ("log", "np.log"), ("fabs", "np.abs"), ("floor", "np.floor"),
               ("sin", "np.sin"), ("cos", "np.cos"), ("prod", "np.prod")):
    LIB["math." + _n] = LIB[_f]
LIB["math.ceil"] = lambda I, a, k: elementwise(lambda x: -fn("floor", -x) if not _ratio(x) else _ceildiv(x), tens(I, a[0]))
LIB["np.ceil"] = LIB["math.ceil"]


def _ratio(x):
    return False


def _ceildiv(x):
    raise NotImplementedError


@lib("itertools.product")
def _product(I, a, k):
    rep = int_arg(I, k["repeat"]) if "repeat" in k else 1
    its = [I.iterate(x) for x in a] * rep
    if any(i[0] != "conc" for i in its):
        raise Unknown("itertools.product over symbolic lists")
    return I.list([Tup(list(x)) for x in itertools.product(*[i[1] for i in its])])


@lib("collections.Counter")
def _counter(I, a, k):
    its = [] if not a or is_none(a[0]) else seq_items(I, a[0])
    if its is not None and all(isinstance(x, StubObj) for x in its):
        return Const(("Counter", tuple(sorted(x.name for x in its))))
    return opaque(fn("Counter", I.node(a[0])))


# builtins ---------------------------------------------------------------------------------------
@lib("len")
def _len(I, a, k):
    v = a[0]
    if isinstance(v, Choice):
        return I.merge(v.c, _len(I, [v.a], {}), _len(I, [v.b], {}))
    if isinstance(v, Tup):
        return items_len(I, v.items)
    if isinstance(v, Ref) and v.kind in ("list", "set"):
        return items_len(I, I.content(v))
    if isinstance(v, Ref) and v.kind == "dict":
        return num(len(I.content(v)))
    if isinstance(v, Const) and isinstance(v.val, str):
        return num(len(v.val))
    if isinstance(v, Tensor):
        if v.axes is not None:
            if v.rank == 0:
                raise Raised("len() of unsized object")
            return scalar(v.axis_size(0))
        return scalar(fn("len", v.body, props="ipn"))
    if isinstance(v, RangeV):
        return scalar(v.length())
    if isinstance(v, StubObj) and "__len__" in v.attrs:
        n = v.attrs["__len__"]
        return I.call(n, [], {}) if isinstance(n, PyFn) else n
    if isinstance(v, ConcatVec):
        n = ZERO
        for s in v.segs:
            n = n + seg_len(I, s)
        return scalar(n)
    if isinstance(v, Ref) and v.kind == "obj":
        return I.call(I.getattr(v, "__len__"), [], {})
    return scalar(fn("len", I.node(v), props="ipn"))


def seg_len(I, s):
    if isinstance(s, Comp):
        n = ZERO
        for x in s.items:
            n = n + seg_len(I, x)
        return sum_over(n, s.v) if s.v.name in n.fv else n * s.v.dim.size
    if isinstance(s, CondSeg):
        return ite(s.c, sum((seg_len(I, x) for x in s.a), ZERO), sum((seg_len(I, x) for x in s.b), ZERO))
    t = tens(I, s)
    if t.axes is None:
        return fn("len", t.body, props="ipn")
    return t.axis_size(0) if t.rank else ONE


def items_len(I, its):
    n = ZERO
    for x in its:
        if isinstance(x, Comp):
            m = items_len(I, x.items).body
            n = n + (sum_over(m, x.v) if x.v.name in m.fv else m * x.v.dim.size)
        elif isinstance(x, CondSeg):
            n = n + ite(x.c, items_len(I, x.a).body, items_len(I, x.b).body)
        else:
            n = n + 1
    return scalar(n)


@lib("range")
def _range(I, a, k):
    ps = [poly_of(I, x) for x in a]
    if len(ps) == 1:
        return RangeV(ZERO, ps[0], ONE)
    return RangeV(ps[0], ps[1], ps[2] if len(ps) > 2 else ONE)


@lib("enumerate")
def _enum(I, a, k):
    st = arg(a, k, 1, "start")
    return EnumV(a[0], poly_of(I, st) if st is not None else ZERO)


@lib("zip")
def _zip(I, a, k):
    return ZipV(list(a))


@lib("reversed")
def _reversed(I, a, k):
    kind, *rest = I.iterate(a[0])
    if kind == "conc":
        return I.list(rest[0][::-1])
    d, el = rest
    return SymSeq(d, lambda w: _rev_el(I, el, d, w))


def _rev_el(I, el, d, w):
    u = var(d)
    return I.subst_value(el(u), {u.name: d.size - 1 - w.as_poly()})


def sort_key(I, v):
    """Python object that orders like a constant value, None if not known"""
    if isinstance(v, Const) and isinstance(v.val, (str, bool)):
        return v.val
    if isinstance(v, Tup):
        ks = [sort_key(I, x) for x in v.items]
        return None if any(k is None for k in ks) else tuple(ks)
    if isinstance(v, Tensor) and v.axes is not None and v.rank == 0:
        c = v.body.const_value()
        if c is not None and c.isreal:
            return c.re
        x = nf.numeric(v.body)
        return x
    return None


@lib("sorted")
def _sorted(I, a, k):
    kind, *rest = I.iterate(a[0])
    if kind == "conc":
        its = list(rest[0])
        f = k.get("key")
        rev = k.get("reverse")
        keys = [sort_key(I, x if is_none(f) else I.call(f, [x], {})) for x in its]
        r = ZERO if rev is None else I.truth(rev)
        if all(x is not None for x in keys) and r in (ZERO, ONE):
            try:
                order = sorted(range(len(its)), key=lambda i: keys[i], reverse=r == ONE)
            except TypeError:
                return I.unknown("sorted", *a)
            return I.list([its[i] for i in order])
    return I.unknown("sorted", *a)


@lib("max")
def _bmax(I, a, k):
    return _minmax(I, a, max_of, "max")


@lib("min")
def _bmin(I, a, k):
    return _minmax(I, a, min_of, "min")


def _minmax(I, a, op, name):
    if len(a) == 1:
        kind, *rest = I.iterate(a[0])
        if kind != "conc":
            w = var(rest[0])
            return opaque(fn(name, SeqB(w, [I.node(rest[1](w))])))
        a = rest[0]
    r = tens(I, a[0])
    for x in a[1:]:
        r = elementwise(op, r, tens(I, x))
    return r


@lib("sum")
def _bsum(I, a, k):
    v = a[0]
    st = arg(a, k, 1, "start")
    acc = tens(I, st) if st is not None else num(0)
    if isinstance(v, Tensor) and v.axes is not None:
        return elementwise(lambda x, y: x + y, acc, T.reduce_sum(v, 0))
    its = seq_items(I, v)
    if its is not None and any(isinstance(x, (Comp, CondSeg)) for x in its):
        return elementwise(lambda x, y: x + y, acc, sum_items(I, its))
    kind, *rest = I.iterate(v)
    if kind == "conc":
        for x in rest[0]:
            acc = binop(I, ast.Add(), acc, x)
        return acc
    w = var(rest[0])
    t = tens(I, rest[1](w))
    return elementwise(lambda x, y: x + y, acc, Tensor(t.axes, sum_over(t.body, w)))


def sum_items(I, its):
    acc = num(0)
    for x in its:
        if isinstance(x, Comp):
            t = sum_items(I, x.items)
            t = Tensor(t.axes, sum_over(t.body, x.v))
        elif isinstance(x, CondSeg):
            t = I.num_of(I.merge(x.c, sum_items(I, x.a), sum_items(I, x.b)))
        else:
            t = tens(I, x)
        acc = elementwise(lambda p, q: p + q, acc, t)
    return acc


LIB["abs"] = LIB["np.abs"]
LIB["round"] = lambda I, a, k: opaque(fn("round", *[I.node(x) for x in a]))
LIB["pow"] = lambda I, a, k: elementwise(lambda x, y: fn("pow", x, y), tens(I, a[0]), tens(I, a[1]))
LIB["complex"] = lambda I, a, k: tens(I, a[0])


@lib("int")
def _int(I, a, k):
    if isinstance(a[0], Const):
        return num(int(a[0].val))
    return elementwise(lambda x: x if x.is_integer() else trunc(x), tens(I, a[0]))


def trunc(x):
    return fn("trunc", x, props="ir")


@lib("float")
def _float(I, a, k):
    return tens(I, a[0])


@lib("bool")
def _bool(I, a, k):
    t = I.truth(a[0])
    c = t.const_value()
    return Const(bool(c)) if c is not None else scalar(t)


@lib("str", "repr")
def _str(I, a, k):
    v = a[0]
    if isinstance(v, Const):
        return Const(str(v.val))
    n = I.int_of(v)
    if n is not None:
        return Const(str(n))
    return opaque(fn("str+", I.node(v)))


@lib("tuple")
def _tuple(I, a, k):
    if not a:
        return Tup([])
    v = a[0]
    if isinstance(v, Tup):
        return v
    if isinstance(v, Ref) and v.kind in ("list",):
        return Tup(I.content(v))
    kind, *rest = I.iterate(v)
    if kind == "conc":
        return Tup(rest[0])
    w = var(rest[0])
    return Tup([Comp(w, [rest[1](w)])])


@lib("list")
def _list(I, a, k):
    if not a:
        return I.list([])
    v = a[0]
    its = seq_items(I, v)
    if its is not None:
        return I.list(its)
    kind, *rest = I.iterate(v)
    if kind == "conc":
        return I.list(rest[0])
    w = var(rest[0])
    return I.list([Comp(w, [rest[1](w)])])


@lib("set", "frozenset")
def _set(I, a, k):
    if not a:
        return I.new("set", [])
    its = seq_items(I, a[0])
    if its is None and isinstance(a[0], Ref) and a[0].kind == "set":
        its = list(I.content(a[0]))
    if its is None:
        kind, *rest = I.iterate(a[0])
        if kind != "conc":
            raise Unknown("set of symbolic sequence")
        its = rest[0]
    out = []
    for x in its:
        if not any(I.same(x, y) for y in out):
            out.append(x)
    return I.new("set", out)


@lib("dict")
def _dict(I, a, k):
    d = {}
    if a:
        if isinstance(a[0], Ref) and a[0].kind == "dict":
            d.update(I.content(a[0]))
        else:
            kind, *rest = I.iterate(a[0])
            if kind != "conc":
                raise Unknown("dict of symbolic sequence")
            for x in rest[0]:
                p, q = I.unpack(x, 2)
                d[dict_key(I, p)] = q
    for q, v in k.items():
        d[("s", q)] = v
    return I.dict(d)


@lib("any")
def _bany(I, a, k):
    r = ONE
    for c in truths(I, a[0]):
        r = r * (ONE - c)
    return mkbool(ONE - r)


@lib("all")
def _ball(I, a, k):
    r = ONE
    for c in truths(I, a[0]):
        r = r * c
    return mkbool(r)


def mkbool(p):
    c = p.const_value()
    return Const(bool(c)) if c is not None else scalar(p)


def truths(I, v):
    its = seq_items(I, v)
    if its is None:
        kind, *rest = I.iterate(v)
        if kind != "conc":
            raise Unknown("any/all over symbolic sequence")
        its = rest[0]
    out = []
    for x in its:
        if isinstance(x, Comp):
            t = I.truth(x.items[0])
            if x.v.name not in t.fv:
                out.append(t)
            else:
                out.append(fn("forall", SeqB(x.v, [t]), props="bi"))
        elif isinstance(x, CondSeg):
            raise Unknown("any/all over conditional list")
        else:
            out.append(I.truth(x))
    return out


@lib("map")
def _map(I, a, k):
    kind, *rest = I.iterate(a[1]) if len(a) == 2 else I.iterate(ZipV(list(a[1:])))
    star = len(a) > 2
    if kind == "conc":
        return I.list([I.call(a[0], list(x.items) if star else [x], {}) for x in rest[0]])
    w = var(rest[0])
    e = rest[1](w)
    return I.list([Comp(w, [I.call(a[0], list(e.items) if star else [e], {})])])


@lib("callable")
def _callable(I, a, k):
    v = a[0]
    if isinstance(v, (Fn, Lib, Partial, BoundM, Mapped, PyFn, ClsV)):
        return Const(True)
    if isinstance(v, StubObj):
        return Const(v.callf is not None)
    if isinstance(v, Ref):
        if v.kind == "obj" and v.cls is not None:
            return Const(I.prog.find_method(v.cls, "__call__") is not None)
        return Const(False)
    if isinstance(v, (Const, Tup)):
        return Const(False)
    if isinstance(v, Tensor) and v.axes is not None:
        return Const(False)
    if isinstance(v, Choice):
        return mkbool(ite(v.c, I.truth(_callable(I, [v.a], {})), I.truth(_callable(I, [v.b], {}))))
    return scalar(fn("callable", I.node(v), props="bi"))


ABSTRACT = {"Iterable": ("tuple", "list", "dict", "set", "str"), "Collection": ("tuple", "list", "dict", "set", "str"), "Container": ("tuple", "list", "dict", "set", "str"),
            "Sized": ("tuple", "list", "dict", "set", "str"), "Sequence": ("tuple", "list", "str"), "MutableSequence": ("list",), "Mapping": ("dict",), "MutableMapping": ("dict",),
            "Iterator": (), "Generator": (), "Callable": (), "Hashable": ("tuple", "str"), "Set": ("set",), "MutableSet": ("set",)}


@lib("isinstance")
def _isinstance(I, a, k):
    v, c = a[0], a[1]
    cs = c.items if isinstance(c, Tup) else [c]
    if isinstance(v, Choice):
        return mkbool(ite(v.c, I.truth(_isinstance(I, [v.a, c], {})), I.truth(_isinstance(I, [v.b, c], {}))))
    r = ZERO
    for x in cs:
        t = inst1(I, v, x)
        r = r + t - r * t
    return mkbool(r)


def inst1(I, v, c):
    nm = c.name if isinstance(c, Lib) else (c.info.name if isinstance(c, ClsV) else None)
    if isinstance(c, ClsV):
        if isinstance(v, (Ref, Tup)) and v.cls is not None:
            return ONE if c.info in I.prog.mro(v.cls) else ZERO
        if isinstance(v, StubObj) and "__class__" in v.attrs:
            k = v.attrs["__class__"]
            return ONE if isinstance(k, ClsV) and c.info in I.prog.mro(k.info) else ZERO
        if isinstance(v, StubObj) and "__isa__" in v.attrs:
            return ONE if c.info.name in v.attrs["__isa__"] else ZERO
        if isinstance(v, (Const, Tup, Fn)):
            return ZERO
        if isinstance(v, (Ref, Partial, BoundM, Mapped, PyFn, Lib)) or (isinstance(v, Tensor) and v.axes is not None):
            return ZERO
        return fn("isinstance", I.node(v), K(c.info.name), props="bi")
    short = nm.split(".")[-1] if isinstance(nm, str) else None
    if short in ABSTRACT and nm != short:
        if isinstance(v, (Tup,)):
            return ONE if "tuple" in ABSTRACT[short] else ZERO
        if isinstance(v, Ref) and v.kind in ("list", "dict", "set"):
            return ONE if v.kind in ABSTRACT[short] else ZERO
        if isinstance(v, Const):
            return ONE if isinstance(v.val, str) and "str" in ABSTRACT[short] else ZERO
        if isinstance(v, Ref) and v.cls is not None:
            dunder = {"Iterable": "__iter__", "Callable": "__call__", "Sized": "__len__", "Container": "__contains__"}.get(short)
            if dunder and I.prog.find_method(v.cls, dunder) is None and all(
                    ast.unparse(b).split(".")[-1] in ("Module", "ABC", "object") or any(q.name == ast.unparse(b).split(".")[-1] for q in I.prog.mro(v.cls))
                    for q in I.prog.mro(v.cls) for b in q.bases):
                return ZERO
            try:
                I.getattr(v, {"Iterable": "__iter__", "Callable": "__call__", "Sized": "__len__", "Container": "__contains__"}[short])
                return ONE
            except Raised:
                return ZERO
            except KeyError:
                pass
        if isinstance(v, Tensor) and v.axes is not None and short in ("Iterable", "Sized", "Collection", "Container"):
            return ONE if v.rank else fn("isinstance", I.node(v), I.node(c), props="bi") if v.body.const_value() is None else ZERO
        if short == "Callable" and isinstance(v, (Fn, Partial, BoundM, Mapped, PyFn, Lib, ClsV)):
            return ONE
    if isinstance(v, Const):
        ty = {"str": str, "bool": bool, "int": int}.get(nm)
        return ONE if ty and isinstance(v.val, ty) else ZERO
    if isinstance(v, Tup):
        return ONE if nm == "tuple" else ZERO
    if isinstance(v, Ref):
        return ONE if v.kind == nm or (v.kind == "dict" and nm and "dict" in nm.lower() and nm == "dict") else ZERO
    if isinstance(v, (Fn, Partial, BoundM, Mapped, PyFn, Lib, ClsV)):
        return ZERO
    if isinstance(v, StubObj) and nm is not None and (nm.split(".")[-1] in ("Iterable", "Sequence", "str", "dict", "list", "tuple", "int", "float", "Iterator", "FrozenDict")):
        return ONE if nm.split(".")[-1] in v.attrs.get("__isa__", ()) else ZERO
    if isinstance(v, Tensor) and v.axes is not None:
        if nm is not None and nm.endswith("FrozenDict"):
            return ZERO
        if nm in ("jax.Array", "np.ndarray"):
            if v.kind == "key" or v.rank:
                return ONE
            if v.body.const_value() is not None:
                return ZERO
        if nm in ("str", "dict", "list", "tuple"):
            return ZERO
        if v.axes == () and v.body.const_value() is not None:
            if nm in ("int",):
                return ONE if v.body.is_integer() else ZERO
            if nm == "float":
                return ZERO if v.body.is_integer() else ONE
    return fn("isinstance", I.node(v), I.node(c), props="bi")


@lib("type")
def _type(I, a, k):
    v = a[0]
    if isinstance(v, Tup):
        return Lib("tuple") if v.cls is None else ClsV(v.cls)
    if isinstance(v, Ref):
        if v.cls is not None:
            return ClsV(v.cls)
        return Lib(v.kind)
    if isinstance(v, Const):
        return Lib(type(v.val).__name__)
    if isinstance(v, Choice):
        return I.merge(v.c, _type(I, [v.a], {}), _type(I, [v.b], {}))
    if isinstance(v, (Fn, BoundM, PyFn)):
        return Lib("function")
    return opaque(fn("type", I.node(v)))


@lib("hasattr")
def _hasattr(I, a, k):
    v, n = a[0], a[1].val if isinstance(a[1], Const) else None
    if isinstance(v, StubObj) and n is not None:
        if n in v.attrs:
            return Const(v.attrs[n] is not None)
    if isinstance(v, Ref) and v.kind == "obj" and n is not None and v.cls is not None:
        if n in I.content(v) or I.prog.find_method(v.cls, n) is not None:
            return Const(True)
        return Const(False)
    return scalar(fn("hasattr", I.node(v), K(n), props="bi"))


@lib("getattr")
def _getattr(I, a, k):
    if isinstance(a[1], Const) and isinstance(a[1].val, str):
        if len(a) > 2:
            h = _hasattr(I, a[:2], {})
            c = I.truth(h)
            if c == ZERO:
                return a[2]
            if c == ONE:
                return I.getattr(a[0], a[1].val)
            return I.merge(c, I.getattr(a[0], a[1].val), a[2])
        return I.getattr(a[0], a[1].val)
    return opaque(fn("getattr", I.node(a[0]), I.node(a[1])))


@lib("setattr")
def _setattr(I, a, k):
    if isinstance(a[1], Const):
        I.setattr(a[0], a[1].val, a[2])
        return NONE
    raise Unknown("setattr with symbolic name")


@lib("dir")
def _dir(I, a, k):
    return DirV(a[0]) if a else I.unknown("dir")


class DirV(V):
    def __init__(self, v):
        self.v = v


@lib("slice")
def _slice(I, a, k):
    if len(a) == 1:
        return SliceV(NONE, a[0], NONE)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else NONE)


@lib("Exception", "ValueError", "RuntimeError", "TypeError", "KeyError", "NotImplementedError", "IndexError", "AttributeError")
def _exc(I, a, k):
    return opaque(fn("exception", *[I.node(x) for x in a]))


@lib("id")
def _id(I, a, k):
    return opaque(fn("id", I.node(a[0])))


@lib("divmod")
def _divmod(I, a, k):
    return Tup([binop(I, ast.FloorDiv(), a[0], a[1]), binop(I, ast.Mod(), a[0], a[1])])


# operators -------------------------------------------------------------------------------------
_DUNDER = {"Add": ("__add__", "__radd__"), "Sub": ("__sub__", "__rsub__"), "Mult": ("__mul__", "__rmul__"),
           "Div": ("__truediv__", "__rtruediv__"), "MatMult": ("__matmul__", "__rmatmul__"), "Pow": ("__pow__", "__rpow__")}


def binop(I, op, a, b):
    o = type(op).__name__
    for x, y, d in ((a, b, 0), (b, a, 1)):
        if isinstance(x, (Ref, Tup)) and x.cls is not None and o in _DUNDER:
            m = I.prog.find_method(x.cls, _DUNDER[o][d])
            if m is not None:
                return I.call(I.make_fn(m), [x, y], {})
    if isinstance(a, Choice) or isinstance(b, Choice):
        c = a if isinstance(a, Choice) else b
        try:
            if isinstance(a, Choice):
                a2 = I.num_of(a)
                b2 = b
            else:
                a2, b2 = a, I.num_of(b)
            return binop(I, op, a2, b2)
        except Unknown:
            if isinstance(a, Choice):
                return I.merge(c.c, binop(I, op, a.a, b), binop(I, op, a.b, b))
            return I.merge(c.c, binop(I, op, a, b.a), binop(I, op, a, b.b))
    if isinstance(a, Const) and isinstance(a.val, str) or isinstance(b, Const) and isinstance(b.val, str) or is_strv(a) or is_strv(b):
        return strop(I, o, a, b)
    if o == "Add":
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, Ref) and a.kind == "list" and (isinstance(b, Ref) and b.kind == "list"):
            return I.list(list(I.content(a)) + list(I.content(b)))
        if isinstance(a, Tup) and isinstance(b, Tensor) and b.axes is None:
            return opaque(fn("tupcat", I.node(a), I.node(b)))
        if isinstance(a, Tensor) and a.axes is None and isinstance(b, Tup):
            return opaque(fn("tupcat", I.node(a), I.node(b)))
    if o == "Mult":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Tup) or (isinstance(x, Ref) and x.kind == "list"):
                its = seq_items(I, x)
                n = I.int_of(y)
                if n is not None:
                    r = its * n
                    return Tup(r) if isinstance(x, Tup) else I.list(r)
                p = poly_of(I, y)
                w = var(Dim.of_size(p))
                r = [Comp(w, its)]
                return Tup(r) if isinstance(x, Tup) else I.list(r)
    if o == "BitOr" and isinstance(a, Ref) and a.kind == "dict":
        d = dict(I.content(a))
        d.update(I.content(b))
        return I.dict(d)
    if isinstance(a, UndefT) or isinstance(b, UndefT):
        raise Unknown("possibly undefined operand")
    x, y = tens(I, a), tens(I, b)
    try:
        return arith(I, o, x, y)
    except ShapeError as e:
        I.strict_shapes.append("%s: %s" % (I.where(), e))
        I.note("shape mismatch: %s" % e)
        return opaque(unknown_atom("shape", x, y))


def is_strv(v):
    if isinstance(v, Tensor) and v.axes is None:
        a = v.body.single_atom()
        return a is not None and a.kind == "fn" and a.name == "str+"
    return False


def strop(I, o, a, b):
    from .interp import merge_str
    if o == "Add":
        if isinstance(a, Const) and isinstance(b, Const):
            return Const(a.val + b.val)

        def parts(v):
            if isinstance(v, Const):
                return [K(v.val)]
            if is_strv(v):
                return list(v.body.single_atom().args)
            return [I.node(v)]
        return opaque(fn("str+", *merge_str(parts(a) + parts(b))))
    if o == "Mod":
        xs = [x.val if isinstance(x, Const) else I.int_of(x) if isinstance(x, Tensor) else None for x in (b.items if isinstance(b, Tup) else [b])]
        if isinstance(a, Const) and isinstance(a.val, str) and all(x is not None for x in xs) and "%f" not in a.val:
            try:
                return Const(a.val % tuple(xs))
            except (TypeError, ValueError):
                pass
        return opaque(fn("str+", K("%"), I.node(a), I.node(b)))
    if o == "Mult":
        return opaque(fn("str+", I.node(a), I.node(b)))
    return I.unknown("string operator")


def arith(I, o, x, y):
    if o == "Add":
        return elementwise(lambda p, q: p + q, x, y)
    if o == "Sub":
        return elementwise(lambda p, q: p - q, x, y)
    if o == "Mult":
        return elementwise(lambda p, q: p * q, x, y)
    if o == "Div":
        return elementwise(div, x, y)
    if o == "FloorDiv":
        return elementwise(nf.floordiv, x, y)
    if o == "Mod":
        return elementwise(nf.mod, x, y)
    if o == "Pow":
        return elementwise(lambda p, q: fn("pow", p, q), x, y)
    if o == "MatMult":
        return T.matmul(x, y)
    if o in ("BitAnd", "BitOr", "BitXor"):
        def f(p, q):
            if nf._is_boolean(p) and nf._is_boolean(q):
                if o == "BitAnd":
                    return p * q
                if o == "BitOr":
                    return p + q - p * q
                return p + q - p * q - p * q
            return fn(o, *sorted([p, q], key=lambda z: z.key), props="i")
        return elementwise(f, x, y)
    if o == "LShift":
        return elementwise(lambda p, q: p * fn("pow", const(2), q), x, y)
    if o == "RShift":
        return elementwise(lambda p, q: nf.floordiv(p, fn("pow", const(2), q)), x, y)
    raise Unknown("operator " + o)


def div(p, q):
    if q.is_zero():
        return fn("div0", p)
    return p / q


def compare(I, op, a, b):
    o = type(op).__name__
    if o in ("Is", "IsNot"):
        r = identical(I, a, b)
        if o == "IsNot":
            r = ONE - r
        return mkbool(r)
    if o in ("In", "NotIn"):
        r = contains(I, a, b)
        return mkbool(ONE - r if o == "NotIn" else r)
    if o in ("Eq", "NotEq"):
        r = equality(I, a, b)
        if r is not None:
            if isinstance(r, Tensor):
                return elementwise(lambda x: ONE - x, r) if o == "NotEq" else r
            return mkbool(ONE - r if o == "NotEq" else r)
    x, y = tens(I, a), tens(I, b)
    f = {"Lt": lambda p, q: ind_lt0(p - q), "Gt": lambda p, q: ind_lt0(q - p),
         "LtE": lambda p, q: le(p, q), "GtE": lambda p, q: le(q, p),
         "Eq": lambda p, q: ind_eq0(p - q), "NotEq": lambda p, q: ONE - ind_eq0(p - q)}[o]
    try:
        r = elementwise(f, x, y)
    except ShapeError as e:
        I.strict_shapes.append("%s: %s" % (I.where(), e))
        return opaque(unknown_atom("shape", x, y))
    if r.axes == () and r.body.const_value() is not None:
        return Const(bool(r.body.const_value()))
    return r


def le(p, q):
    d = q - p
    return ONE - ind_lt0(d)


def identical(I, a, b):
    if isinstance(a, Choice):
        return ite(a.c, identical(I, a.a, b), identical(I, a.b, b))
    if isinstance(b, Choice):
        return ite(b.c, identical(I, a, b.a), identical(I, a, b.b))
    if I.same(a, b):
        return ONE
    for x, y in ((a, b), (b, a)):
        if is_none(x):
            if isinstance(y, Tensor) and y.axes is None:
                at = y.body.single_atom()
                if at is not None and "n" not in at.props and at.kind == "sym" and "?" in str(at.name):
                    return fn("isnone", y.body, props="bi")
                # values computed by the engine are never None; optional inputs are declared by the checks
                return ZERO
            return ZERO
        if isinstance(x, Const) and isinstance(y, Const):
            return ONE if (type(x.val) is type(y.val) and x.val == y.val) else ZERO
    if isinstance(a, Const) and isinstance(a.val, bool) and isinstance(b, Tensor):
        t = I.truth(b)
        return t if a.val else ONE - t
    if isinstance(b, Const) and isinstance(b.val, bool) and isinstance(a, Tensor):
        t = I.truth(a)
        return t if b.val else ONE - t
    if isinstance(a, (Lib, ClsV)) and isinstance(b, (Lib, ClsV)):
        return ZERO
    if isinstance(a, Ref) and isinstance(b, Ref):
        return ZERO
    return fn("is", *sorted([I.node(a), I.node(b)], key=lambda n: n.key), props="bi")


def contains(I, a, b):
    if isinstance(b, Choice):
        return ite(b.c, contains(I, a, b.a), contains(I, a, b.b))
    if isinstance(b, DirV):
        return I.truth(_hasattr(I, [b.v, a], {}))
    if isinstance(b, Ref) and b.kind == "dict":
        k = dict_key(I, a)
        c = I.content(b)
        if k in c:
            v = c[k]
            if isinstance(v, Choice) and (isinstance(v.a, UndefT) or isinstance(v.b, UndefT)):
                return ONE - v.c if isinstance(v.a, UndefT) else v.c
            return ONE
        if k[0] in ("s", "c", "n") and not any(q[0] == "x" or q == "#comp" or q[0] == "opaque" for q in c if isinstance(q, (tuple, str))):
            return ZERO
        return fn("in", I.node(a), I.node(b), props="bi")
    if isinstance(b, ItemsV) and b.what == "keys":
        return contains(I, a, b.d)
    if isinstance(b, StubObj) and "__contains__" in b.attrs:
        return I.truth(I.call(b.attrs["__contains__"], [a], {}))
    its = seq_items(I, b)
    if its is None and isinstance(b, Ref) and b.kind == "set":
        its = list(I.content(b))
    if its is not None and not any(isinstance(x, (Comp, CondSeg)) for x in its):
        r = ONE
        for x in its:
            e = equality(I, a, x)
            if e is None:
                e = ind_eq0(tens(I, a).body - tens(I, x).body)
            if isinstance(e, Tensor):
                e = I.truth(e)
            r = r * (ONE - e)
        return ONE - r
    if isinstance(a, Const) and isinstance(b, Const) and isinstance(b.val, str):
        return ONE if a.val in b.val else ZERO
    return fn("in", I.node(a), I.node(b), props="bi")


DTALIAS = {"np.single": "np.float32", "np.double": "np.float64", "float": "np.float64", "complex": "np.complex128", "np.csingle": "np.complex64",
           "np.cdouble": "np.complex128"}


def equality(I, a, b):
    """boolean poly | Tensor | None (numeric comparison)"""
    if isinstance(a, Choice):
        x, y = equality(I, a.a, b), equality(I, a.b, b)
        x, y = [numeq(I, p, q) if z is None else z for z, p, q in ((x, a.a, b), (y, a.b, b))]
        if isinstance(x, Poly) and isinstance(y, Poly):
            return ite(a.c, x, y)
        raise Unknown("comparison of conditional value")
    if isinstance(b, Choice):
        return equality(I, b, a)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Const):
            if isinstance(y, Const):
                return ONE if x.val == y.val else ZERO
            if isinstance(x.val, bool) and isinstance(y, Tensor):
                return None
            if x.val is None:
                if isinstance(y, Tensor) and y.axes is not None and y.rank:
                    return ZERO
                return identical(I, x, y)
            if isinstance(x.val, str):
                if isinstance(y, Tensor):
                    if y.axes is not None or y.body.const_value() is not None:
                        return ZERO
                    return fn("streq", *sorted([I.node(x), I.node(y)], key=lambda n: n.key), props="bi")
                if isinstance(y, Lib):
                    return ZERO
                return ZERO
        if isinstance(x, (Lib, ClsV)):
            if isinstance(y, (Lib, ClsV)):
                if isinstance(x, Lib) and isinstance(y, Lib) and DTALIAS.get(x.name, x.name) == DTALIAS.get(y.name, y.name):
                    return ONE
                return ONE if I.same(x, y) else ZERO
            if isinstance(y, Tensor):
                nd = dtype_name(I, y)
                return fn("is", *sorted([I.node(x), I.node(y)], key=lambda n: n.key), props="bi")
            return ZERO
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return ZERO
        r = ONE
        for x, y in zip(a.items, b.items):
            e = equality(I, x, y)
            e = numeq(I, x, y) if e is None else (I.truth(e) if isinstance(e, Tensor) else e)
            r = r * e
        return r
    if isinstance(a, (Tup,)) != isinstance(b, (Tup,)):
        o = b if isinstance(a, Tup) else a
        if isinstance(o, (Const, Lib)):
            return ZERO
        if isinstance(o, Tensor) and o.axes is None:
            return fn("eq", *sorted([I.node(a), I.node(b)], key=lambda n: n.key), props="bi")
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.kind == "list" and b.kind == "list":
            p, q = I.content(a), I.content(b)
            if len(p) == len(q) and all(I.same(x, y) for x, y in zip(p, q)):
                return ONE
            if any(isinstance(x, (Comp, CondSeg)) for x in p + q):
                return fn("eq", *sorted([I.node(a), I.node(b)], key=lambda n: n.key), props="bi")
            return equality(I, Tup(p), Tup(q))
        if a.kind == "set" and b.kind == "set":
            p, q = list(I.content(a)), list(I.content(b))
            if all(distinct(x) for x in p + q):
                return ONE if all(any(I.same(x, y) for y in q) for x in p) and all(any(I.same(x, y) for y in p) for x in q) else ZERO
        return ONE if a.id == b.id else fn("eq", I.node(a), I.node(b), props="bi")
    if distinct(a) and distinct(b):
        return ONE if I.same(a, b) else ZERO
    if isinstance(a, (Fn, PyFn, Partial, BoundM, StubObj, TreeDef)) or isinstance(b, (Fn, PyFn, Partial, BoundM, StubObj, TreeDef)):
        if I.same(a, b):
            return ONE
        return fn("eq", *sorted([I.node(a), I.node(b)], key=lambda n: n.key), props="bi")
    return None


def distinct(x):
    """values that are equal only if they are identical"""
    return isinstance(x, Const) or (isinstance(x, StubObj) and "__distinct__" in x.attrs)


def numeq(I, a, b):
    x, y = tens(I, a), tens(I, b)
    if (x.axes is None or x.rank == 0) and (y.axes is None or y.rank == 0):
        return ind_eq0(x.body - y.body)
    return fn("eq", *sorted([I.node(a), I.node(b)], key=lambda n: n.key), props="bi")


# attributes and methods ------------------------------------------------------------------------
def tensor_attr(I, t, name):
    if name == "shape":
        if t.axes is None:
            return ShapeOf(t)
        return Tup([scalar(s) for s in t.shape()])
    if name == "ndim":
        if t.axes is None:
            return scalar(fn("ndim", t.body, props="i"))
        return num(t.rank)
    if name == "size":
        if t.axes is None:
            return scalar(fn("size", t.body, props="ip"))
        n = ONE
        for s in t.shape():
            n = n * s
        return scalar(n)
    if name == "T":
        return T.transpose(t)
    if name == "dtype":
        if t.body.is_integer() and t.axes is not None:
            return opaque(fn("dtype", K("int")))
        a = t.body.single_atom()
        if a is not None and a.kind == "sym" and "dtype:" + str(a.name) in I.overrides:
            return I.overrides["dtype:" + str(a.name)]
        return opaque(fn("dtype", K("real" if t.body.is_real() else "any")) if t.axes is not None else fn("dtype", t.body))
    if name == "real":
        return elementwise(real_part, t)
    if name == "imag":
        return elementwise(imag_part, t)
    if name == "at":
        return AtV(t)
    if name == "value":
        return t
    if name in ("data", "flat"):
        return t
    return PyFn(lambda I2, a, k: tensor_method(I2, t, name, a, k), "array." + name)


class ShapeOf(V):
    def __init__(self, t):
        self.t = t


METHODS = {"sum": "np.sum", "mean": "np.mean", "conj": "np.conj", "conjugate": "np.conj", "dot": "np.dot", "prod": "np.prod",
           "max": "np.max", "min": "np.min", "transpose": "np.transpose", "squeeze": "np.squeeze", "ravel": "np.ravel", "all": "np.all",
           "any": "np.any", "cumsum": "np.cumsum", "flatten": "np.ravel", "trace": "np.trace", "swapaxes": "np.swapaxes",
           "repeat": "np.repeat", "take": "np.take", "diagonal": "np.diagonal", "argmax": "np.argmax", "round": "round", "clip": "np.clip"}


def tensor_method(I, t, name, a, k):
    if name in ("reshape", "ravel", "flatten") and "order" in k:
        o = k["order"].val if isinstance(k["order"], Const) else "?"
        k = {q: x for q, x in k.items() if q != "order"}
        if o == "F" and t.axes is not None:
            flat = T.ravel(T.transpose(t))
            if name != "reshape":
                return flat
            sh = a[0] if len(a) == 1 else Tup(list(a)) if a else k.get("shape", k.get("newshape"))
            sh = shape_arg(I, sh) if isinstance(sh, (Tup, Ref)) else [poly_of(I, sh)]
            return T.transpose(T.reshape(flat, sh[::-1]))
        if o not in ("C", None):
            return I.unknown("memory order", t, *a)
    if name == "reshape":
        if not a and k:
            a = [k.get("shape", k.get("newshape"))]
        return do_reshape(I, t, a)
    if name in ("block_until_ready", "copy", "item", "tolist", "to_py", "addressable_data", "__array__"):
        if name == "copy":
            return Tensor(t.axes, t.body, t.kind, t.dt)
        return t
    if name == "astype":
        return cast(I, t, dtype_name(I, arg(a, k, 0, "dtype")))
    if name == "transpose" and len(a) > 1:
        return LIB["np.transpose"](I, [t, Tup(list(a))], k)
    if name == "fill":
        I.rebind(t, Tensor(t.axes, poly_of(I, a[0])))
        return NONE
    if name in METHODS:
        return I.call_lib(METHODS[name], [t] + list(a), k)
    # opaque receiver: uninterpreted method
    if t.axes is None:
        return opaque(fn("method:" + name, t.body, *[I.node(x) for x in a], *[Seq([K(q), I.node(k[q])]) for q in sorted(k)],
                         props="u" if t.unk else ""))
    return I.unknown("array method " + name, t, *a)


def tree_attr(I, v, name):
    if isinstance(v, ConcatVec):
        if name == "shape":
            return Tup([_len(I, [v], {})])
        if name == "size":
            return _len(I, [v], {})
        if name in ("real", "imag", "T"):
            f = {"real": real_part, "imag": imag_part}.get(name)
            return map_segs(I, v, lambda t: elementwise(f, t)) if f else v
        if name in ("conj", "conjugate"):
            return PyFn(lambda I2, a, k: map_segs(I2, v, lambda t: elementwise(lambda x: x.conjugate(), t)), "conj")
        if name in ("ravel", "flatten", "copy", "block_until_ready"):
            return PyFn(lambda I2, a, k: v, name)
    if isinstance(v, Tree):
        if name == "copy" and v.wrap != "array":
            return PyFn(lambda I2, a, k: v, name)
    return I.unknown("attribute %s of tree/vector" % name)


def map_segs(I, v, f):
    def go(s):
        if isinstance(s, Comp):
            return Comp(s.v, [go(x) for x in s.items])
        return f(tens(I, s))
    return ConcatVec([go(s) for s in v.segs])


def const_method(I, v, name, a, k):
    if isinstance(v, Const) and isinstance(v.val, str):
        if name in ("startswith", "endswith", "upper", "lower", "strip", "lstrip", "rstrip", "replace", "split", "format", "find", "count",
                    "isdigit", "removeprefix", "removesuffix", "partition", "rpartition") and all(isinstance(x, Const) or I.int_of(x) is not None for x in a) and not k:
            av = [x.val if isinstance(x, Const) else I.int_of(x) for x in a]
            r = getattr(v.val, name)(*av)
            return wrap_py(I, r)
        if name == "join":
            kind, *rest = I.iterate(a[0])
            if kind == "conc" and all(isinstance(x, Const) for x in rest[0]):
                return Const(v.val.join(x.val for x in rest[0]))
        return opaque(fn("str." + name, I.node(v), *[I.node(x) for x in a]))
    if isinstance(v, Tup):
        if name == "index":
            for i, x in enumerate(v.items):
                if I.same(x, a[0]):
                    return num(i)
            return I.unknown("tuple.index")
        if name == "count":
            return num(sum(1 for x in v.items if I.same(x, a[0])))
    return I.unknown("method %s" % name, *a)


def wrap_py(I, r):
    if isinstance(r, (str, bool)) or r is None:
        return Const(r)
    if isinstance(r, (int, float)):
        return num(r)
    if isinstance(r, (list,)):
        return I.list([wrap_py(I, x) for x in r])
    if isinstance(r, tuple):
        return Tup([wrap_py(I, x) for x in r])
    raise Unknown("python value")


def container_method(I, r, name, a, k):
    c = I.content(r)
    if r.kind == "list":
        if name == "append":
            I.event("mutate", obj=r, how="append", value=a[0])
            c.append(a[0])
            return NONE
        if name == "extend":
            I.event("mutate", obj=r, how="extend", value=a[0])
            its = seq_items(I, a[0])
            if its is None:
                kind, *rest = I.iterate(a[0])
                its = rest[0] if kind == "conc" else [Comp(*(lambda w: (w, [rest[1](w)]))(var(rest[0])))]
            c.extend(its)
            return NONE
        if name == "pop":
            I.event("mutate", obj=r, how="pop")
            n = I.int_of(a[0]) if a else -1
            if n is None or any(isinstance(x, (Comp, CondSeg, Hole)) for x in (c[n:] if n < 0 else c[:n + 1])):
                raise Unknown("pop from symbolic list")
            return c.pop(n)
        if name == "insert":
            I.event("mutate", obj=r, how="insert")
            n = I.int_of(a[0])
            if n is None or (n != 0 and any(isinstance(x, (Comp, CondSeg, Hole)) for x in c)):
                raise Unknown("insert into symbolic list")
            c.insert(n, a[1])
            return NONE
        if name == "copy":
            return I.list(c)
        if name == "index":
            for i, x in enumerate(c):
                if I.same(x, a[0]):
                    return num(i)
            return I.unknown("list.index")
        if name == "reverse":
            if any(isinstance(x, (Comp, CondSeg, Hole)) for x in c):
                raise Unknown("reverse of symbolic list")
            I.event("mutate", obj=r, how="reverse")
            c.reverse()
            return NONE
        if name == "clear":
            I.event("mutate", obj=r, how="clear")
            c.clear()
            return NONE
        if name == "count":
            return I.unknown("list.count")
    if r.kind == "dict":
        if r.cls is not None:
            m = I.prog.find_method(r.cls, name)
            if m is not None:
                return I.call(I.make_fn(m), [r] + list(a), k)
        if name in ("keys", "values", "items"):
            return ItemsV(r, name)
        if name == "get":
            return dict_get(I, r, a[0], a[1] if len(a) > 1 else NONE)
        if name == "pop":
            I.event("mutate", obj=r, how="pop")
            v = dict_get(I, r, a[0], a[1] if len(a) > 1 else None)
            c.pop(dict_key(I, a[0]), None)
            return v
        if name == "update":
            I.event("mutate", obj=r, how="update")
            for x in a:
                if isinstance(x, Ref) and x.kind == "dict":
                    c.update(I.content(x))
                else:
                    raise Unknown("dict.update")
            for q, v in k.items():
                c[("s", q)] = v
            return NONE
        if name == "setdefault":
            kk = dict_key(I, a[0])
            if kk not in c:
                I.event("mutate", obj=r, how="setdefault")
                c[kk] = a[1] if len(a) > 1 else NONE
            return c[kk]
        if name in ("copy", "unfreeze"):
            return I.new("dict", dict(c), r.cls)
        if name == "clear":
            I.event("mutate", obj=r, how="clear")
            c.clear()
            return NONE
    if r.kind == "set":
        if name == "add":
            if not any(I.same(x, a[0]) for x in c):
                c.append(a[0])
            return NONE
        if name in ("intersection",):
            o = seq_items(I, a[0]) or I.content(a[0])
            return I.new("set", [x for x in c if any(I.same(x, y) for y in o)])
    return I.unknown("%s method %s" % (r.kind, name), *a)


def dict_get(I, r, key, default):
    c = I.content(r)
    k = dict_key(I, key)
    if k in c:
        v = c[k]
        if isinstance(v, Choice) and isinstance(v.a, UndefT):
            return I.merge(v.c, default, v.b) if default is not None else v.b
        if isinstance(v, Choice) and isinstance(v.b, UndefT):
            return I.merge(v.c, v.a, default) if default is not None else v.a
        return v
    if default is not None and k[0] in ("s", "c", "n"):
        return default
    if default is None:
        raise Raised("KeyError %s" % (k,))
    return I.unknown("dict lookup")


# indexing ------------------------------------------------------------------------------------------
def getitem(I, b, k):
    if isinstance(b, Choice):
        if isinstance(b.a, UndefT):
            return getitem(I, b.b, k)
        if isinstance(b.b, UndefT):
            return getitem(I, b.a, k)
        return I.merge(b.c, getitem(I, b.a, k), getitem(I, b.b, k))
    if isinstance(b, AtV):
        return AtIdx(b.t, k)
    if isinstance(b, ShapeOf):
        if isinstance(k, SliceV):
            return opaque(fn("shape_tail", b.t.body, I.node(k)))
        return scalar(fn("shape", b.t.body, I.node(k), props="ip"))
    if isinstance(b, Tup) or (isinstance(b, Ref) and b.kind in ("list",)):
        return seq_getitem(I, b, k)
    if isinstance(b, Ref) and b.kind == "dict":
        if b.cls is not None:
            m = I.prog.find_method(b.cls, "__getitem__")
            if m is not None:
                return I.call(I.make_fn(m), [b, k], {})
        kk = dict_key(I, k)
        c = I.content(b)
        if kk in c:
            v = c[kk]
            if isinstance(v, Choice) and isinstance(v.a, UndefT):
                return v.b
            if isinstance(v, Choice) and isinstance(v.b, UndefT):
                return v.a
            return v
        if kk[0] in ("s", "c", "n") and not any(q == "#comp" or q[0] in ("x", "opaque") for q in c):
            raise Raised("KeyError %r" % (kk[1],))
        return opaque(fn("lookup", I.node(b), I.node(k)))
    if isinstance(b, Ref) and b.kind == "obj" and b.cls is not None:
        m = I.prog.find_method(b.cls, "__getitem__")
        if m is not None:
            return I.call(I.make_fn(m), [b, k], {})
    if isinstance(b, StubObj):
        if "__getitem__" in b.attrs:
            return I.call(b.attrs["__getitem__"], [k], {})
        return opaque(fn("item", I.node(b), I.node(k)))
    if isinstance(b, Const) and isinstance(b.val, str):
        n = I.int_of(k)
        if n is not None:
            return Const(b.val[n])
        if isinstance(k, SliceV):
            f = lambda x: None if is_none(x) else int_arg(I, x)
            return Const(b.val[f(k.a):f(k.b):f(k.c)])
        return I.unknown("string index")
    if isinstance(b, Tensor):
        try:
            return tensor_getitem(I, b, k)
        except ShapeError as e:
            I.strict_shapes.append("%s: %s" % (I.where(), e))
            I.note("index: %s" % e)
            return opaque(unknown_atom("index", I.node(b), I.node(k)))
    if isinstance(b, ConcatVec):
        return opaque(fn("item", I.node(b), I.node(k)))
    if isinstance(b, MappedVec):
        n = I.int_of(k)
        if n is not None and len(b.ax) == 1:
            return I.subst_value(b.vec, {b.ax[0].name: const(n)})
    if isinstance(b, (ItemsV, SymSeq)):
        kind, *rest = I.iterate(b)
        n = I.int_of(k)
        if kind == "conc" and n is not None:
            return rest[0][n]
        if kind == "sym":
            w = var(rest[0])
            return I.subst_value(rest[1](w), {w.name: poly_of(I, k)})
    if isinstance(b, UndefT):
        raise Unknown("index of undefined")
    if isinstance(b, Tree):
        return I.unknown("tree index")
    return I.unknown("getitem on %s" % type(b).__name__, k)


def seq_getitem(I, b, k):
    its = b.items if isinstance(b, Tup) else I.content(b)
    mk = (lambda x: Tup(x)) if isinstance(b, Tup) else I.list
    plain = not any(isinstance(x, (Comp, CondSeg, Hole)) for x in its)
    n = I.int_of(k)
    if n is not None:
        if plain:
            if not -len(its) <= n < len(its):
                raise Raised("index %d out of range for sequence of length %d" % (n, len(its)))
            return its[n]
        if n >= 0:
            off = n
            for x in its:
                if isinstance(x, Comp) and len(x.items) == 1:
                    return I.subst_value(x.items[0], {x.v.name: const(off)})
                if isinstance(x, (Comp, CondSeg, Hole)):
                    raise Unknown("index into symbolic list")
                if off == 0:
                    return x
                off -= 1
        else:
            off = n
            for x in reversed(its):
                if isinstance(x, Comp) and len(x.items) == 1:
                    return I.subst_value(x.items[0], {x.v.name: x.v.dim.size + off})
                if isinstance(x, (Comp, CondSeg, Hole)):
                    raise Unknown("index into symbolic list")
                if off == -1:
                    return x
                off += 1
        raise Unknown("index into symbolic list")
    if isinstance(k, SliceV):
        f = lambda x: None if is_none(x) else int_arg(I, x)
        s, e, st = f(k.a), f(k.b), f(k.c)
        if plain:
            return mk(its[s:e:st])
        if st in (None, 1) and (s is None or s >= 0) and e is None:
            s = s or 0
            if not any(isinstance(x, (Comp, CondSeg, Hole)) for x in its[:s]):
                return mk(its[s:])
            if len(its) == 1 and isinstance(its[0], Comp) and len(its[0].items) == 1:
                c = its[0]
                w = var(Dim.of_size(c.v.dim.size - s))
                return mk([Comp(w, [I.subst_value(c.items[0], {c.v.name: w.as_poly() + s})])])
        if st == -1 and s is None and e is None and len(its) == 1 and isinstance(its[0], Comp) and len(its[0].items) == 1:
            c = its[0]
            w = var(c.v.dim)
            return mk([Comp(w, [I.subst_value(c.items[0], {c.v.name: c.v.dim.size - 1 - w.as_poly()})])])
        raise Unknown("slice of symbolic list")
    # symbolic index
    p = poly_of(I, k)
    if len(its) == 1 and isinstance(its[0], Comp) and len(its[0].items) == 1:
        return I.subst_value(its[0].items[0], {its[0].v.name: p})
    if plain and its:
        r = its[-1]
        for i in range(len(its) - 2, -1, -1):
            r = I.merge(ind_eq0(p - i), its[i], r)
        return r
    raise Unknown("symbolic index into list")


def norm_ix(I, p, size):
    c = p.int_value()
    if c is not None and c < 0:
        return size + c
    return p


def slice_bounds(I, s, size):
    step = ONE if is_none(s.c) else poly_of(I, s.c)
    if step == const(-1):
        if is_none(s.a) and is_none(s.b):
            return size - 1, size, step
        raise Unknown("negative step slice")
    sc = step.const_value()
    if sc is not None and sc.re < 0:
        raise Unknown("negative step slice")
    a = ZERO if is_none(s.a) else clampix(poly_of(I, s.a), size)
    b = size if is_none(s.b) else clampix(poly_of(I, s.b), size)
    n = b - a
    if step != ONE:
        n = nf.floordiv(n + step - 1, step)
    cn = n.int_value()
    if cn is not None and cn < 0:
        n = ZERO
    return a, n, step


def clampix(p, size):
    c = p.int_value()
    if c is not None and c < 0:
        p2 = size + c
        if ind_lt0(p2) == ONE:
            return ZERO
        return p2
    d = ind_lt0(size - p)       # p > size -> size
    if d == ZERO:
        return p
    if d == ONE:
        return size
    # symbolic bounds: assume in range (checks that rely on it state so)
    return p


def tensor_getitem(I, t, k):
    if t.axes is None:
        if isinstance(k, SliceV) and is_none(k.a) and is_none(k.b) and is_none(k.c):
            return t
        return opaque(fn("item", t.body, I.node(k)))
    ks = list(k.items) if isinstance(k, Tup) else [k]
    n_real = sum(1 for x in ks if not (isinstance(x, Const) and (x.val is None or x.val is Ellipsis)))
    ell = [i for i, x in enumerate(ks) if isinstance(x, Const) and x.val is Ellipsis]
    if n_real > t.rank:
        raise ShapeError("too many indices (%d) for rank %d" % (n_real, t.rank))
    full = SliceV(NONE, NONE, NONE)
    if ell:
        i = ell[0]
        ks = ks[:i] + [full] * (t.rank - n_real) + ks[i + 1:]
    else:
        ks = ks + [full] * (t.rank - n_real)
    cur = t.opened()
    pos = 0
    adv = []
    for x in ks:
        if isinstance(x, Choice):
            x = I.num_of(x)
        if isinstance(x, Const) and x.val is None:
            cur = Tensor(cur.axes[:pos] + ((),) + cur.axes[pos:], cur.body, t.kind, t.dt)
            pos += 1
        elif isinstance(x, SliceV):
            a, n, st = slice_bounds(I, x, cur.axis_size(pos))
            if a.is_zero() and st == ONE and n == cur.axis_size(pos):
                pos += 1
                continue
            cur = take_range(cur, pos, a, n, st)
            pos += 1
        else:
            ix = tens(I, x)
            if ix.axes is None:
                return opaque(fn("item", I.node(cur), I.node(k)))
            if ix.rank and ix.dt != 'idx' and nf._is_boolean(ix.body) and not ix.body.is_zero() and ix.body.const_value() is None:
                return opaque(fn("item", I.node(t), I.node(k)))
            adv.append((pos, ix))
            pos += 1
    if not adv:
        return cur
    if all(ix.rank == 0 for _, ix in adv):
        for p, ix in reversed(adv):
            cur = cur.index_axis(p, norm_ix(I, ix.body, cur.axis_size(p)))
        return cur
    axes, bs = T.broadcast([ix for _, ix in adv])
    first = adv[0][0]
    contiguous = all(adv[i + 1][0] == adv[i][0] + 1 for i in range(len(adv) - 1))
    for (p, _), b in reversed(list(zip(adv, bs))):
        cur = cur.index_axis(p, norm_ix(I, b, cur.axis_size(p)))
    ins = first if contiguous else 0
    # index tensor axes vs remaining axes
    return Tensor(cur.axes[:ins] + tuple(axes) + cur.axes[ins:], cur.body, t.kind, t.dt)


def at_method(I, v, name, a, k):
    if name in ("set", "add", "multiply", "mul", "subtract", "min", "max", "divide", "apply"):
        if name == "apply":
            return I.unknown("at.apply")
        return at_update(I, v.t, v.ix, a[0], name)
    if name == "get":
        return getitem(I, v.t, v.ix)
    return I.unknown("at." + name)


def at_update(I, t, k, v, how):
    """functional update t.at[k].<how>(v)"""
    if isinstance(t, Tensor) and t.axes is None:
        return opaque(fn("at_" + how, t.body, I.node(k), I.node(v)))
    ks = list(k.items) if isinstance(k, Tup) else [k]
    n_real = sum(1 for x in ks if not (isinstance(x, Const) and (x.val is None or x.val is Ellipsis)))
    ell = [i for i, x in enumerate(ks) if isinstance(x, Const) and x.val is Ellipsis]
    full = SliceV(NONE, NONE, NONE)
    if n_real > t.rank:
        raise ShapeError("too many indices")
    if ell:
        i = ell[0]
        ks = ks[:i] + [full] * (t.rank - n_real) + ks[i + 1:]
    else:
        ks = ks + [full] * (t.rank - n_real)
    t = t.opened()
    val = tens(I, v) if not isinstance(v, (Ref, Tup)) else I.array_of(v)
    fancy = [q for q, x in enumerate(ks) if not isinstance(x, SliceV)]
    if len(fancy) > 1 and fancy == list(range(fancy[0], fancy[-1] + 1)) and how in ("set", "add", "multiply", "mul"):
        ixs = [tens(I, ks[q]) for q in fancy]
        if all(x.axes is not None and x.rank <= 1 for x in ixs) and any(x.rank == 1 and x.axes[0] for x in ixs):
            ns = {x.axis_size(0).int_value() for x in ixs if x.rank == 1 and x.axes[0]}
            n = ns.pop() if len(ns) == 1 else None
            if n is not None and n <= 256 and not any(x.dt == "bool" for x in ixs) and val.axes is not None and val.rank <= t.rank - len(fancy) + 1:
                p = val.rank - (t.rank - fancy[-1])      # axis of the value along the indices
                pick = lambda x, m, p=0: x.body if x.rank == 0 or not x.axes[0] else x.index_axis(0, const(m)).body
                if val.axes == () and how == "set" and all(isinstance(ks[q], SliceV) and is_none(ks[q].a) and is_none(ks[q].b) for q in range(t.rank) if q not in fancy):
                    pts = {tuple(norm_ix(I, pick(x, m), t.axis_size(q)).key for q, x in zip(fancy, ixs)): [norm_ix(I, pick(x, m), t.axis_size(q)) for q, x in zip(fancy, ixs)] for m in range(n)}
                    if all(p.int_value() is not None for ps in pts.values() for p in ps):
                        c = ZERO                         # distinct points: the indicators exclude each other
                        for ps in pts.values():
                            d = ONE
                            for q, p in zip(fancy, ps):
                                if t.axes[q]:
                                    d = d * ind_eq0(lin(t.axes[q]) - p)
                            c = c + d
                        vb = val.body if t.dt not in ("int", "real") else None
                        if t.dt == "int" and val.body.is_integer() or t.dt == "real" and val.body.is_real():
                            vb = val.body
                        if vb is not None:
                            return Tensor(t.axes, t.body if vb == t.body else c * (vb - t.body) + t.body, t.kind, t.dt)
                for m in range(n):
                    vm = val if p < 0 else val.index_axis(p, const(m)) if val.axes[p] else Tensor(val.axes[:p] + val.axes[p + 1:], val.body)
                    t = at_update(I, t, Tup(ks[:fancy[0]] + [Tensor((), pick(x, m)) for x in ixs] + ks[fancy[-1] + 1:]), vm, how)
                return t
    cond = ONE
    outax = []           # axes of the addressed region: list of (axis vars, local index poly)
    for q, x in enumerate(ks):
        ax = t.axes[q]
        if isinstance(x, SliceV):
            a, n, st = slice_bounds(I, x, t.axis_size(q))
            w = lin(ax)
            if not (a.is_zero() and st == ONE and n == t.axis_size(q)):
                loc = w - a
                if st != ONE:
                    cond = cond * ind_eq0(nf.mod(loc, st))
                    loc = nf.floordiv(loc, st)
                cond = cond * (ONE - ind_lt0(w - a)) * ind_lt0(loc - n)
                outax.append((n, loc, None))
            else:
                outax.append((t.axis_size(q), w, ax))
        else:
            ix = tens(I, x)
            if ix.axes is None:
                return opaque(fn("at_" + how, I.node(t), I.node(k), I.node(v)))
            if ix.rank == 1 and ix.axes[0] and how in ("set", "add", "multiply", "mul") and ix.axis_size(0).int_value() is not None \
                    and ix.axis_size(0).int_value() <= 16 and ix.dt != 'bool' and not (ix.dt != 'idx' and nf._is_boolean(ix.body) and ix.rank == t.rank and equal(ix.axis_size(0), t.axis_size(0)) and val.axes == ()) \
                    and all(isinstance(y, SliceV) and is_none(y.a) and is_none(y.b) for z, y in enumerate(ks) if z != q):
                for m in range(ix.axis_size(0).int_value()):
                    vm = val
                    p = None if val.axes is None else val.rank - (t.rank - q)       # axis of the value along the index
                    if p is not None and p >= 0:
                        vm = val.index_axis(p, const(m)) if val.axes[p] else Tensor(val.axes[:p] + val.axes[p + 1:], val.body)
                    t = at_update(I, t, Tup(ks[:q] + [Tensor((), ix.index_axis(0, const(m)).body)] + ks[q + 1:]), vm, how)
                return t
            if ix.rank and not all(not a for a in ix.axes):
                if nf._is_boolean(ix.body) and len(ks) == 1 and ix.rank == t.rank and val.axes == ():
                    _, (tb, mb) = T.broadcast([t, ix])
                    ax2, (tb, mb) = T.broadcast([t, ix])
                    return Tensor(ax2, ite(mb, val.body, tb), t.kind, t.dt)
                return opaque(fn("at_" + how, I.node(t), I.node(k), I.node(v)))
            p = norm_ix(I, ix.body, t.axis_size(q))
            if ax:
                cond = cond * ind_eq0(lin(ax) - p)
            if ix.rank:
                outax.append((ONE, ZERO, ()))
    # align the value with the addressed region (right aligned broadcasting)
    if val.axes is None:
        vb = val.body
    else:
        val = val.opened()
        if val.rank > len(outax):
            lead = val.axes[:val.rank - len(outax)]
            if any(lead):
                raise ShapeError("update value has too many axes")
            val = Tensor(val.axes[val.rank - len(outax):], val.body)
        cur = val
        for (n, loc, ax) in reversed(outax[len(outax) - val.rank:]):
            vx = cur.axes[-1]
            if not vx:
                cur = Tensor(cur.axes[:-1], cur.body)
                continue
            if not equal(cur.axis_size(cur.rank - 1), n):
                raise ShapeError("update of extent %s with %s" % (pretty(n), pretty(cur.axis_size(cur.rank - 1))))
            if ax is not None and axis_dims(ax) == axis_dims(vx):
                m = {b.name: a.as_poly() for a, b in zip(ax, vx)}
                cur = Tensor(cur.axes[:-1], cur.body.subst(m))
            else:
                r = cur.index_axis(cur.rank - 1, loc)
                cur = r
        vb = cur.body
    if t.dt is not None and t.dt in NARROW:
        vb = fn("narrow", vb, K(t.dt)) if vb.const_value() is None else vb
    elif t.dt == "real" and not vb.is_real() and not vb.unk:
        vb = real_part(vb)
    elif t.dt == "int" and not vb.is_integer() and not vb.unk:
        vb = trunc(vb)
    old = t.body
    new = {"set": vb, "add": old + vb, "multiply": old * vb, "mul": old * vb, "subtract": old - vb,
           "divide": old / vb if how == "divide" else vb, "min": min_of(old, vb) if how == "min" else vb,
           "max": max_of(old, vb) if how == "max" else vb}[how]
    return Tensor(t.axes, ite(cond, new, old), t.kind, t.dt)

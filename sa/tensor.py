"""Index-notation arrays.  A Tensor is a list of axes (each axis a tuple of atomic
index variables, so that flattening/unflattening is tracked exactly) plus a scalar
normal form in those variables.  axes=None means "array of unknown rank": only
element-wise operations are interpreted on it."""
from .nf import *
from . import nf


class ShapeError(Exception):
    pass


class Unsupported(Exception):
    """construct outside the modelled fragment"""


class Tensor(Node):
    __slots__ = ("axes", "body", "kind", "_key", "_fv", "_level", "dt")
    # kind: None | 'key' (PRNG keys) ; dt : dtype tag or None

    def __init__(self, axes, body, kind=None, dt=None):
        self.axes = None if axes is None else tuple(tuple(a) for a in axes)
        self.body = body if isinstance(body, Poly) else P(body)
        self.kind = kind
        self.dt = dt
        self._key = None
        self._fv = None
        self._level = None

    def _canon(self):
        if self._key is None:
            if not self.axes:
                self._key = self.body.key if self.axes is not None else "?" + self.body.key
                self._fv = self.body.fv
                self._level = self.body.level
            else:
                vs = [v for ax in self.axes for v in ax]
                lvl = self.body.level + 1
                ren = {v.name: Atom("var", (lvl, i), dim=v.dim).as_poly() for i, v in enumerate(vs)}
                b = self.body.subst(ren)
                self._key = "T<%s|%s>" % (";".join(",".join(v.dim.name for v in ax) for ax in self.axes), b.key)
                self._fv = self.body.fv - frozenset(v.name for v in vs)
                self._level = lvl
        return self._key

    @property
    def key(self):
        return self._canon()

    @property
    def fv(self):
        self._canon()
        return self._fv

    @property
    def level(self):
        self._canon()
        return self._level

    @property
    def unk(self):
        return self.body.unk

    @property
    def rank(self):
        return None if self.axes is None else len(self.axes)

    def atoms(self):
        return self.body.atoms()

    def opened(self):
        """fresh index variables"""
        if not self.axes:
            return self
        ren, axes = {}, []
        for ax in self.axes:
            na = []
            for v in ax:
                w = var(v.dim)
                ren[v.name] = w.as_poly()
                na.append(w)
            axes.append(tuple(na))
        return Tensor(axes, self.body.subst(ren), self.kind, self.dt)

    def subst(self, m):
        if not (self.fv & m.keys()):
            return self
        t = self.opened()
        b = t.body.subst(m)
        if not t.axes:
            return b if self.axes is not None else Tensor(None, b, self.kind, self.dt)
        return Tensor(t.axes, b, self.kind, self.dt)

    def map_polys(self, f):
        t = self.opened()
        return Tensor(t.axes, f(t.body), t.kind, t.dt)

    def conjugate(self):
        return Tensor(self.axes, self.body.conjugate(), self.kind, self.dt)

    def __repr__(self):
        if self.axes is None:
            return "?" + pretty(self.body)
        if not self.axes:
            return pretty(self.body)
        return "T(%s)%s" % ("; ".join(",".join("%s:%s" % (v.key, v.dim.name) for v in ax) or "1" for ax in self.axes), pretty(self.body))

    def axis_size(self, k):
        s = ONE
        for v in self.axes[k]:
            s = s * v.dim.size
        return s

    def shape(self):
        return [self.axis_size(k) for k in range(len(self.axes))]

    def with_body(self, b):
        return Tensor(self.axes, b, self.kind, self.dt)

    def index_axis(self, k, ix):
        """select index poly ix along axis k (removes the axis)"""
        ax = self.axes[k]
        if len(ax) == 0:
            b = self.body
        elif len(ax) == 1:
            b = self.body.subst({ax[0].name: ix})
        else:
            # composite: unravel
            m = {}
            rest = ix
            for v in reversed(ax[1:]):
                m[v.name] = nf.mod(rest, v.dim.size)
                rest = nf.floordiv(rest, v.dim.size)
            m[ax[0].name] = rest
            b = self.body.subst(m)
        return Tensor(self.axes[:k] + self.axes[k + 1:], b, self.kind, self.dt)


def scalar(p, dt=None):
    return Tensor((), P(p), dt=dt)


def num(v):
    return Tensor((), const(v))


def opaque(p):
    return Tensor(None, p)


def array(name, dims, props="", extra=(), kind=None):
    """input array symbol name[extra..., axes...]"""
    vs = [var(d if isinstance(d, Dim) else Dim.named(d)) for d in dims]
    vs = [v for v in vs]
    axes = [(v,) if v.dim.const != 1 else () for v in vs]
    idx = list(extra) + [v.as_poly() if v.dim.const != 1 else ZERO for v in vs]
    if "N" in props:
        nf.NORM[name] = [e.single_atom().dim for e in extra] + [v.dim for v in vs]
    return Tensor(axes, sym(name, idx, props), kind)


def axis_dims(ax):
    return tuple(v.dim.name for v in ax)


def unify_axis(a, b):
    """-> (axis, map_a, map_b) broadcasting two axes"""
    if not a:
        return b, {}, {}
    if not b:
        return a, {}, {}
    if axis_dims(a) == axis_dims(b):
        return a, {}, {v.name: u.as_poly() for u, v in zip(a, b)}
    sa, sb = ONE, ONE
    for v in a:
        sa = sa * v.dim.size
    for v in b:
        sb = sb * v.dim.size
    if equal(sa, sb):
        # different factorisation of the same extent: express in terms of a
        if len(a) == 1:
            # b composite -> unravel a's index
            m = {}
            rest = a[0].as_poly()
            for v in reversed(b[1:]):
                m[v.name] = nf.mod(rest, v.dim.size)
                rest = nf.floordiv(rest, v.dim.size)
            m[b[0].name] = rest
            return a, {}, m
        if len(b) == 1:
            ax, mb, ma = unify_axis(b, a)
            return ax, ma, mb
        # flatten both through one index
        w = var(Dim.of_size(sa))
        def unr(c):
            m = {}
            rest = w.as_poly()
            for v in reversed(c[1:]):
                m[v.name] = nf.mod(rest, v.dim.size)
                rest = nf.floordiv(rest, v.dim.size)
            m[c[0].name] = rest
            return m
        return (w,), unr(a), unr(b)
    raise ShapeError("axes of extent %s and %s cannot be combined" % (pretty(sa), pretty(sb)))


def broadcast(ts):
    """list of Tensors (known rank) -> (axes, [bodies])"""
    r = max(t.rank for t in ts)
    ts = [t.opened() for t in ts]
    axes = []
    maps = [dict() for _ in ts]
    for k in range(r):
        pos = r - 1 - k
        cur = ()
        have = []
        for n, t in enumerate(ts):
            q = t.rank - 1 - k
            if q < 0:
                continue
            ax, ma, mb = unify_axis(cur, t.axes[q])
            if ma:
                for h in have:
                    maps[h] = {**{x: y.subst(ma) for x, y in maps[h].items()}, **ma}
            cur = ax
            maps[n].update(mb)
            have.append(n)
        axes.insert(0, cur)
    return axes, [t.body.subst(m) for t, m in zip(ts, maps)]


def elementwise(f, *ts):
    if any(t.axes is None for t in ts):
        if all(t.axes is None or t.rank == 0 for t in ts):
            return Tensor(None, f(*[t.body for t in ts]))
        # unknown rank combined with known rank: stays opaque element-wise
        return Tensor(None, f(*[t.body if not t.axes else fn("arr", t) for t in ts]))
    if all(t.rank == 0 for t in ts):
        return Tensor((), f(*[t.body for t in ts]))
    axes, bs = broadcast(ts)
    return Tensor(axes, f(*bs))


def reduce_sum(t, axis=None, keepdims=False):
    if t.axes is None:
        return opaque(fn("sum", t, K(repr(axis))))
    r = t.rank
    if axis is None:
        ks = list(range(r))
    else:
        ks = [a % r if -r <= a < r else _bad(a) for a in (axis if isinstance(axis, (tuple, list)) else [axis])]
    t = t.opened()
    b = t.body
    for k in ks:
        for v in t.axes[k]:
            b = sum_over(b, v)
    axes = []
    for k in range(r):
        if k in ks:
            if keepdims:
                axes.append(())
        else:
            axes.append(t.axes[k])
    return Tensor(axes, b)


def _bad(a):
    raise ShapeError("axis %r out of range" % (a,))


def transpose(t, perm=None):
    if t.axes is None:
        return opaque(fn("transpose", t, K(repr(perm))))
    if perm is None:
        perm = list(range(t.rank))[::-1]
    return Tensor([t.axes[p] for p in perm], t.body, t.kind)


def tensordot(a, b, axa, axb):
    a, b = a.opened(), b.opened()
    axa = [x % a.rank for x in axa]
    axb = [x % b.rank for x in axb]
    mb, sumv = {}, []
    ma = {}
    for x, y in zip(axa, axb):
        if (not a.axes[x]) != (not b.axes[y]) and not (a.axis_size(x) == ONE and b.axis_size(y) == ONE):
            raise ShapeError("contraction of extent 1 with a longer axis")
        ax, m1, m2 = unify_axis(a.axes[x], b.axes[y])
        ma.update(m1)
        mb.update(m2)
        sumv += list(ax)
    body = a.body.subst(ma) * b.body.subst(mb)
    for v in sumv:
        body = sum_over(body, v)
    axes = [ax for k, ax in enumerate(a.axes) if k not in axa] + [ax for k, ax in enumerate(b.axes) if k not in axb]
    return Tensor(axes, body)


def dot(a, b):
    if a.axes is None or b.axes is None:
        if (a.axes is not None and a.rank == 0) or (b.axes is not None and b.rank == 0):
            return elementwise(lambda x, y: x * y, a, b)
        return opaque(fn("dot", a, b))
    if a.rank == 0 or b.rank == 0:
        return elementwise(lambda x, y: x * y, a, b)
    if b.rank == 1:
        return tensordot(a, b, [-1], [0])
    return tensordot(a, b, [-1], [-2])


def matmul(a, b):
    if a.axes is None or b.axes is None:
        return opaque(fn("dot", a, b))
    if a.rank == 0 or b.rank == 0:
        raise ShapeError("matmul with scalar operand")
    if a.rank <= 2 and b.rank <= 2:
        return dot(a, b)
    # batch matmul
    a, b = a.opened(), b.opened()
    x = Tensor(a.axes + ((),), a.body) if a.rank >= 2 else a
    if a.rank == 1:
        # (k) @ (...,k,n)
        k = a.axes[0]
        ax, m1, m2 = unify_axis(k, b.axes[-2])
        body = a.body.subst(m1) * b.body.subst(m2)
        for v in ax:
            body = sum_over(body, v)
        return Tensor(b.axes[:-2] + (b.axes[-1],), body)
    if b.rank == 1:
        ax, m1, m2 = unify_axis(a.axes[-1], b.axes[0])
        body = a.body.subst(m1) * b.body.subst(m2)
        for v in ax:
            body = sum_over(body, v)
        return Tensor(a.axes[:-1], body)
    ba, bb = list(a.axes[:-2]), list(b.axes[:-2])
    n = max(len(ba), len(bb))
    ba = [()] * (n - len(ba)) + ba
    bb = [()] * (n - len(bb)) + bb
    ma, mb, axes = {}, {}, []
    for p, q in zip(ba, bb):
        ax, m1, m2 = unify_axis(p, q)
        ma.update(m1)
        mb.update(m2)
        axes.append(ax)
    ax, m1, m2 = unify_axis(a.axes[-1], b.axes[-2])
    ma.update(m1)
    mb.update(m2)
    body = a.body.subst(ma) * b.body.subst(mb)
    for v in ax:
        body = sum_over(body, v)
    return Tensor(axes + [a.axes[-2], b.axes[-1]], body)


def einsum(spec, ops):
    spec = spec.replace(" ", "")
    if "." in spec:
        raise Unsupported("einsum ellipsis")
    lhs, _, rhs = spec.partition("->")
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise ShapeError("einsum arity")
    if "->" not in spec:
        allc = "".join(ins)
        rhs = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    if any(o.axes is None for o in ops):
        return opaque(fn("einsum", K(spec), *ops))
    ax = {}
    body = ONE
    subs = []
    ops = [o.opened() for o in ops]
    for s, o in zip(ins, ops):
        if len(s) != o.rank:
            raise ShapeError("einsum rank mismatch %r for rank %d" % (s, o.rank))
        m = {}
        for c, a in zip(s, o.axes):
            if c in ax:
                cur, m1, m2 = unify_axis(ax[c], a)
                if m1:
                    for q in subs:
                        q.update({k: v for k, v in m1.items()})
                ax[c] = cur
                m.update(m2)
            else:
                ax[c] = a
        subs.append(m)
    for o, m in zip(ops, subs):
        body = body * o.body.subst(m)
    for c in ax:
        if c not in rhs:
            for v in ax[c]:
                body = sum_over(body, v)
    return Tensor([ax[c] for c in rhs], body)


def outer(a, b):
    if a.axes is None or b.axes is None:
        return opaque(fn("outer", a, b))
    a, b = ravel(a), ravel(b)
    a, b = a.opened(), b.opened()
    return Tensor(a.axes + b.axes, a.body * b.body)


def ravel(t):
    if t.axes is None:
        return opaque(fn("ravel", t))
    t = t.opened()
    return Tensor([tuple(v for ax in t.axes for v in ax)], t.body, t.kind)


def reshape(t, shape):
    """shape: list of polys, one may be const -1"""
    if t.axes is None:
        return opaque(fn("reshape", t, Seq(shape)))
    t = t.opened()
    flat = [v for ax in t.axes for v in ax]
    total = ONE
    for v in flat:
        total = total * v.dim.size
    neg = [i for i, s in enumerate(shape) if s.const_value() is not None and s.const_value() == CQ(-1)]
    if len(neg) > 1:
        raise ShapeError("two -1 in reshape")
    shape = list(shape)
    if neg:
        known = ONE
        for i, s in enumerate(shape):
            if i != neg[0]:
                known = known * s
        q = total * known.pow(-1)
        if not _int_like(q):
            q2 = nf.floordiv(total, known)
            q = q2
        shape[neg[0]] = q
    else:
        known = ONE
        for s in shape:
            known = known * s
        if not equal(known, total):
            raise ShapeError("reshape of %s elements into %s" % (pretty(total), pretty(known)))
    # greedy matching of atomic dims
    axes = []
    pos = 0
    ok = True
    for s in shape:
        if s.const_value() == CQ1:
            axes.append(())
            continue
        acc, grp = ONE, []
        while pos < len(flat) and not equal(acc, s):
            acc = acc * flat[pos].dim.size
            grp.append(flat[pos])
            pos += 1
            if equal(acc, s):
                break
        if not equal(acc, s):
            ok = False
            break
        axes.append(tuple(grp))
    if ok and pos == len(flat):
        return Tensor(axes, t.body, t.kind)
    # general case: linear index  (with the flat index split)
    newv = []
    for s in shape:
        newv.append(var(Dim.of_size(s)) if s.const_value() != CQ1 else None)
    # peel off matching trailing axes
    ft = list(flat)
    nt = list(zip(shape, newv))
    sub = {}
    while ft and nt:
        s, w = nt[-1]
        if w is None:
            nt.pop()
            continue
        if equal(ft[-1].dim.size, s) and len(ft) > 1 and len([x for x in nt if x[1] is not None]) > 1:
            sub[ft[-1].name] = w.as_poly()
            ft.pop()
            nt.pop()
            continue
        break
    # and leading ones
    while ft and nt:
        s, w = nt[0]
        if w is None:
            nt.pop(0)
            continue
        if equal(ft[0].dim.size, s) and len(ft) > 1 and len([x for x in nt if x[1] is not None]) > 1:
            sub[ft[0].name] = w.as_poly()
            ft.pop(0)
            nt.pop(0)
            continue
        break
    lin = ZERO
    for s, w in nt:
        if w is None:
            continue
        lin = lin * s + w.as_poly()
    rest = lin
    for v in reversed(ft[1:]):
        sub[v.name] = nf.mod(rest, v.dim.size)
        rest = nf.floordiv(rest, v.dim.size)
    if ft:
        sub[ft[0].name] = rest
    return Tensor([(w,) if w is not None else () for w in newv], t.body.subst(sub), t.kind)


def _int_like(q):
    for m, c in q.terms.items():
        for a, e in m.factors:
            if e < 0:
                return False
    return True


def expand_dims(t, axis):
    if t.axes is None:
        return opaque(fn("expand_dims", t, K(axis)))
    r = t.rank + 1
    k = axis % r
    axes = list(t.axes)
    axes.insert(k, ())
    return Tensor(axes, t.body, t.kind)


def squeeze(t, axis=None):
    if t.axes is None:
        return opaque(fn("squeeze", t))
    if axis is None:
        return Tensor([a for a in t.axes if a], t.body, t.kind)
    ks = [a % t.rank for a in (axis if isinstance(axis, (list, tuple)) else [axis])]
    for k in ks:
        if t.axes[k]:
            raise ShapeError("squeeze of long axis")
    return Tensor([a for k, a in enumerate(t.axes) if k not in ks], t.body, t.kind)


def diag(t):
    t = t.opened()
    if t.rank == 1:
        a = t.axes[0]
        b = tuple(var(v.dim) for v in a)
        body = t.body
        for u, v in zip(a, b):
            body = body * delta(u.as_poly(), v.as_poly())
        return Tensor([a, b], body)
    if t.rank == 2:
        ax, m1, m2 = unify_axis(t.axes[0], t.axes[1])
        return Tensor([ax], t.body.subst(m1).subst(m2))
    raise ShapeError("diag")


def eye(size):
    d = Dim.of_size(size)
    u, v = var(d), var(d)
    return Tensor([(u,), (v,)], delta(u.as_poly(), v.as_poly()))


def stack_literal(items):
    """list of Tensors with identical shape -> Tensor with a leading constant axis"""
    n = len(items)
    if any(t.axes is None for t in items):
        return opaque(fn("stack", *[t for t in items]))
    if n == 0:
        return Tensor([(var(Dim.of_const(0)),)], ZERO)
    axes, bs = broadcast(items)
    if any(t.rank != items[0].rank for t in items):
        raise ShapeError("ragged array literal")
    if n == 1:
        return Tensor([()] + list(axes), bs[0])
    v = var(Dim.of_const(n))
    return Tensor([(v,)] + list(axes), lut(v.as_poly(), bs))


def lut(ix, bs):
    """table lookup: entry of bs selected by index poly ix"""
    c = ix.int_value()
    if c is not None:
        n = len(bs)
        return bs[c if c >= 0 else c + n]
    if all(b == bs[0] for b in bs):
        return bs[0]
    # represent through eq-indicators  (exact for integer index in range)
    out = ZERO
    for k, b in enumerate(bs):
        if not b.is_zero():
            out = out + ind_idx(ix, k) * b
    return out


def ind_idx(ix, k):
    """[ix == k] for an index poly"""
    return ind_eq0(ix - k)

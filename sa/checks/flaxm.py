"""model of the flax layers the networks are built from: layers are uninterpreted functions (or linear maps with symbolic weights)
that are identified by the module that owns them and their name or place in the source"""
import functools
from .common import *


def owner(I):
    """module that creates a layer, the entry point of the module in the present call, and a token of this call"""
    i = len(I.selfs) - 1
    while i >= 0 and I.selfs[i] is None:
        i -= 1
    if i < 0:
        return 0, None, None
    o = I.selfs[i].id
    first = i
    while i >= 0 and (I.selfs[i] is None or I.selfs[i].id == o):
        if I.selfs[i] is not None:
            first = i
        i -= 1
    return o, I.callstack[first].name, I.tokens[first]


class Layers:
    """bookkeeping of one analysis run"""

    def __init__(self, I, real=True, explicit=False):
        self.I, self.real, self.explicit = I, real, explicit
        self.tags, self.counts = {}, {}
        self.made = []
        I.lib = dict(I.lib)
        for n in ("variance_scaling", "lecun_normal", "orthogonal", "uniform", "normal", "glorot_normal", "xavier_uniform", "zeros", "ones", "constant"):
            I.lib["jax.nn.initializers." + n] = functools.partial(lambda I, a, k: StubObj("initializer", {}))
        for n in ("variance_scaling", "lecun_normal", "orthogonal", "uniform", "normal"):
            I.lib["flax.linen.initializers." + n] = functools.partial(lambda I, a, k: StubObj("initializer", {}))
        I.lib["flax.linen.Dense"] = functools.partial(self.dense)
        I.lib["flax.linen.Conv"] = functools.partial(self.conv)
        I.lib["flax.linen.GRUCell"] = functools.partial(self.gru)
        I.lib["flax.linen.OptimizedLSTMCell"] = functools.partial(self.lstm)
        I.lib["flax.linen.LSTMCell"] = functools.partial(self.lstm)
        for n in ("elu", "relu", "gelu", "swish", "silu"):
            f = functools.partial(lambda I, a, k, n: elementwise(lambda x: fn("act:" + n, x, props="r" if x.is_real() else ""), I.num_of(a[0])), n=n)
            I.lib["flax.linen." + n] = f
            I.lib["jax.nn." + n] = f

    def tag(self, kind, k):
        nm = k.get("name")
        nm = nm.val if isinstance(nm, Const) and nm.val is not None else None
        o, entry, token = owner(self.I)
        if nm is None:
            c = self.counts.setdefault((kind, o, entry), [token, 0])
            if c[0] is not token:
                c[:] = [token, 0]
            nm = c[1]
            c[1] += 1
        key = (kind, o, entry, nm)
        if key not in self.tags:
            self.tags[key] = "%s%d" % (kind, len(self.tags))
        return self.tags[key]

    def names(self):
        """uninterpreted functions that stand for layers, cells and activations"""
        out = ["act:" + n for n in ("elu", "relu", "gelu", "swish", "silu")]
        for t in self.tags.values():
            out += [t, t + ".W", t + ".b", t + ".c", t + ".h"]
        for j in range(4):
            out += ["cell%d" % j, "cellout%d" % j]
        return tuple(out)

    @property
    def props(self):
        return "r" if self.real else ""

    def flag(self, v, default):
        if v is None:
            return default
        t = self.I.truth(v)
        return {ONE.key: True, ZERO.key: False}.get(t.key)

    def complex_type(self, k):
        v = k.get("param_dtype", k.get("dtype"))
        return v

    def dense(self, I, a, k):
        n = I.num_of(L.arg(a, k, 0, "features")).body
        tag = self.tag("dense", k)
        bias = self.flag(L.arg(a, k, 1, "use_bias"), True)
        self.made.append((tag, dict(k)))

        def call(I, b, _):
            x = I.num_of(b[0])
            if x.axes is None or x.rank < 1:
                raise Unknown("layer input %s" % short(x))
            x = x.opened()
            w = var(Dim.of_size(n))
            if self.explicit:
                if bias is None:
                    raise Unknown("bias flag")
                i = x.axes[-1]
                j = L.lin(i) if i else ZERO
                body = x.body * fn(tag + ".W", j, w.as_poly(), props=self.props)
                for v in i:
                    body = sum_over(body, v)
                if bias:
                    body = body + fn(tag + ".b", w.as_poly(), props=self.props)
            else:
                row = Tensor([x.axes[-1]], x.body)
                body = fn(tag, w.as_poly(), row, props=self.props)
            return Tensor(list(x.axes[:-1]) + [(w,)], body)
        return PyFn(call, "Dense")

    def conv(self, I, a, k):
        feat = I.num_of(L.arg(a, k, 0, "features")).body
        ks = L.arg(a, k, 1, "kernel_size")
        ks = [I.num_of(ks).body] if isinstance(ks, Tensor) and ks.rank == 0 else L.shape_arg(I, ks)
        ks = [x.int_value() for x in ks]
        nd = len(ks)

        def per_axis(v, default):
            if v is None or (isinstance(v, Const) and v.val is None):
                return [default] * nd
            if isinstance(v, Tensor) and v.rank == 0:
                return [I.num_of(v).body.int_value()] * nd
            return [x.int_value() for x in L.shape_arg(I, v)]
        st = per_axis(L.arg(a, k, 2, "strides"), 1)
        pad = L.arg(a, k, 3, "padding")
        for q in k:
            if q not in ("features", "kernel_size", "strides", "padding", "use_bias", "dtype", "param_dtype", "kernel_init", "bias_init", "name", "precision"):
                raise Unknown("option %s of a convolution" % q)
        if len(a) > 4 or None in ks or None in st or len(st) != nd:
            raise Unknown("arguments of a convolution")
        bias = self.flag(k.get("use_bias"), True)
        tag = self.tag("conv", k)
        self.made.append((tag, dict(k)))
        if pad is None:
            pad = "SAME"
        elif isinstance(pad, Const) and isinstance(pad.val, str):
            pad = pad.val
        elif isinstance(pad, Tensor) and pad.rank == 0:
            pad = [(pad.body.int_value(),) * 2] * nd
        else:
            its = L.seq_items(I, pad)
            if its is None or len(its) != nd:
                raise Unknown("padding of a convolution")
            pad = [tuple(x.int_value() for x in L.shape_arg(I, y)) if L.seq_items(I, y) is not None else (I.num_of(y).body.int_value(),) * 2 for y in its]

        def call(I, b, _):
            x = I.num_of(b[0])
            if x.axes is None or x.rank < nd + 1 or bias is None:
                raise Unknown("layer input %s" % short(x))
            x = x.opened()
            first = x.rank - nd - 1
            size = [x.axis_size(first + q).int_value() for q in range(nd)]
            if None in size:
                raise Unknown("size of a convolution")
            if pad == "VALID":
                pads = [(0, 0)] * nd
            elif pad == "SAME":
                pads = []
                for n, s, f in zip(size, st, ks):
                    t = max((-(-n // s) - 1) * s + f - n, 0)
                    pads.append((t // 2, t - t // 2))
            elif pad == "CIRCULAR":
                pads = [((f - 1) // 2, f // 2) for f in ks]
            elif isinstance(pad, list) and not any(None in p for p in pad):
                pads = pad
            else:
                raise Unknown("padding %s" % (pad,))
            out, kern, cur, mask = [], [], x, ONE
            for q in range(nd):
                n = (size[q] + sum(pads[q]) - ks[q]) // st[q] + 1
                p, w = var(Dim.of_const(n)), var(Dim.of_const(ks[q]))
                ix = p.as_poly() * const(st[q]) + w.as_poly() - const(pads[q][0])
                if pad == "CIRCULAR":
                    ix = nf.mod(ix, const(size[q]))
                elif pads[q] != (0, 0):
                    mask = mask * (ONE - nf.ind_lt0(ix)) * nf.ind_lt0(ix - const(size[q]))
                cur = cur.index_axis(first, ix)
                out.append(p)
                kern.append(w)
            cur = cur.opened()
            c = var(Dim.of_size(feat))
            ci = cur.axes[-1]
            body = mask * cur.body * fn(tag + ".W", *[w.as_poly() for w in kern], L.lin(ci) if ci else ZERO, c.as_poly(), props=self.props)
            for v in list(ci) + kern:
                body = sum_over(body, v)
            if bias:
                body = body + fn(tag + ".b", c.as_poly(), props=self.props)
            return Tensor(list(cur.axes[:first]) + [(p,) for p in out] + [(c,)], body)
        return PyFn(call, "Conv")

    def gru(self, I, a, k):
        tag = self.tag("gru", k)

        def call(I, b, _):
            c = I.num_of(b[0]).opened()
            new = Tensor(c.axes, fn(tag, *[v.as_poly() for ax in c.axes for v in ax], I.node(I.num_of(b[0])), I.node(I.num_of(b[1])), props=self.props))
            return Tup([new, new])
        return PyFn(call, "GRUCell")

    def lstm(self, I, a, k):
        tag = self.tag("lstm", k)

        def call(I, b, _):
            c, h = I.unpack(b[0], 2)
            h = I.num_of(h).opened()
            args = [I.node(I.num_of(x)) for x in (c, h, b[1])]
            one = Tensor(h.axes, fn(tag + ".c", *[v.as_poly() for ax in h.axes for v in ax], *args, props=self.props))
            two = Tensor(h.axes, fn(tag + ".h", *[v.as_poly() for ax in h.axes for v in ax], *args, props=self.props))
            return Tup([Tup([one, two]), two])
        return PyFn(call, "LSTMCell")


def flax_module(ctx, I, q, **kw):
    m = I.call(cls(ctx, q), [], kw)
    if ctx.prog.find_method(ctx.prog.cls(q), "setup") is not None:
        I.call(I.getattr(m, "setup"), [], {})
    return m

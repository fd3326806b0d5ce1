from .flaxm import *
from fractions import Fraction
import itertools

TITLE = "Network architectures compute the documented functions of the configuration"
N = "jVMC.nets."
AF = "jVMC.nets.activation_functions."
ACT = "user_act"


def spins(I, dims):
    """a configuration of 0/1 with symbolic entries"""
    return array("s", [Dim.of_const(n) for n in dims], props="i")


def entry(ix):
    return sym("s", [const(i) for i in ix], "i")


def pm(ix):
    return const(2) * entry(ix) - ONE


def coefficients(p):
    """{degree: coefficient} of a polynomial in the symbol x"""
    out = {}
    for m, c in p.terms.items():
        d = Fraction(0)
        for a, e in m.factors:
            if a.kind != "sym" or a.name != "x":
                return None
            d += e
        if m.binders or not c.isreal:
            return None
        out[d] = out.get(d, 0) + c.re
    return out


def run(ctx):
    def acts(I, n):
        """activation functions the network is given"""
        return [PyFn(lambda I, a, k, j=j: elementwise(lambda x: fn(ACT + str(j), x, props="r" if x.is_real() else ""), I.num_of(a[0])), "act%d" % j) for j in range(n)]

    def act(x, j=0):
        return fn(ACT + str(j), x, props="r" if x.is_real() else "")

    names = tuple(ACT + str(j) for j in range(4))

    def build(q, real, **kw):
        I = ctx.interp()
        ly = Layers(I, real, explicit=True)
        return I, flax_module(ctx, I, N + q, **kw), ly

    def output(I, m, *x):
        r = I.num_of(I.call(m, list(x), {}))
        if r.axes is None or r.unk or I.tainted:
            return None, dunno("output %s %s" % (short(r), "; ".join(I.notes[-2:])))
        if r.rank:
            return None, flaw(I, "the output has shape %s instead of being a number" % [pretty(x) for x in r.shape()])
        return r.body, None

    def weights(ly, kind):
        return [t for t, _ in ly.made if t.startswith(kind)]

    # -- restricted Boltzmann machines and feed-forward networks ------------------------------
    def rbm(q, real, dims, h, bias, coded):
        I, m, ly = build(q, real, numHidden=num(h), bias=Const(bias))
        got, why = output(I, m, spins(I, dims))
        if got is None:
            return why
        tags = weights(ly, "dense")
        if len(set(tags)) != 1:
            return dunno("layers %s" % tags)
        t = tags[0]
        sites = list(itertools.product(*[range(n) for n in dims]))
        f = pm if coded else entry
        want = ONE
        logs = ZERO
        for j in range(h):
            x = ZERO
            for i, ix in enumerate(sites):
                x = x + f(ix) * fn(t + ".W", const(i), const(j), props=ly.props)
            if bias:
                x = x + fn(t + ".b", const(j), props=ly.props)
            want = want * fn("cosh", x)
            logs = logs + fn("log", fn("cosh", x))
        ctx.done(I)
        r = [compare(I, Tensor((), fn("exp", got)), Tensor((), want), label="amplitude", seeds=5, allow=ly.names())]
        r.append(compare(I, Tensor((), L.real_part(got)), Tensor((), L.real_part(logs)), label="logarithm of the modulus", seeds=5, allow=ly.names()))
        return conj(r)

    def ffn(dims, layers, nact, bias):
        I = ctx.interp()
        ly = Layers(I, True, explicit=True)
        m = flax_module(ctx, I, N + "ffn.FFN", layers=Tup([num(x) for x in layers]), bias=Const(bias), actFun=Tup(acts(I, nact)))
        got, why = output(I, m, spins(I, dims))
        if got is None:
            return why
        tags = weights(ly, "dense")
        if len(set(tags)) != len(layers) + 1:
            return dunno("layers %s" % tags)
        x = [pm(ix) for ix in itertools.product(*[range(n) for n in dims])]
        for l, width in enumerate(list(layers) + [1]):
            y = []
            for j in range(width):
                z = ZERO
                for i, v in enumerate(x):
                    z = z + v * fn(tags[l] + ".W", const(i), const(j), props="r")
                if bias:
                    z = z + fn(tags[l] + ".b", const(j), props="r")
                y.append(act(z, min(l, nact - 1)))
            x = y
        ctx.done(I)
        return compare(I, Tensor((), got), Tensor((), x[0]), label="output", seeds=3, allow=ly.names() + names)

    # -- convolutional networks ------------------------------------------------------------------
    def cnn_build(q, real, dims, F, channels, strides, nact, bias, first, periodic):
        I = ctx.interp()
        ly = Layers(I, real, explicit=True)
        kw = dict(F=Tup([num(x) for x in F]), channels=Tup([num(x) for x in channels]), strides=Tup([num(x) for x in strides]), actFun=Tup(acts(I, nact)),
                  bias=Const(bias), firstLayerBias=Const(first))
        if periodic is not None:
            kw["periodicBoundary"] = Const(periodic)
        return I, flax_module(ctx, I, N + q, **kw), ly

    def conv_layers(tags, props, field, dims, F, channels, strides, nact, bias, first, pads):
        """sum over all outputs of the last layer divided by the root of their number; pads: None for periodic, else (low, high) zero padding per axis"""
        x = {ix + (0,): field(ix) for ix in itertools.product(*[range(n) for n in dims])}
        size, cin = list(dims), 1
        for l, c in enumerate(channels):
            p = [(0, f - 1) for f in F] if pads is None else pads(size, F, strides)
            out = [(n + a + b - f) // s + 1 for n, (a, b), f, s in zip(size, p, F, strides)]
            y = {}
            for o in itertools.product(*[range(n) for n in out]):
                for j in range(c):
                    z = ZERO
                    for kk in itertools.product(*[range(f) for f in F]):
                        pos = [a * s + b - lo for a, s, b, (lo, _) in zip(o, strides, kk, p)]
                        if pads is None:
                            pos = [a % n for a, n in zip(pos, size)]
                        if any(not 0 <= a < n for a, n in zip(pos, size)):
                            continue
                        for i in range(cin):
                            z = z + x[tuple(pos) + (i,)] * fn(tags[l] + ".W", *[const(b) for b in kk], const(i), const(j), props=props)
                    if first if l == 0 else bias:
                        z = z + fn(tags[l] + ".b", const(j), props=props)
                    y[o + (j,)] = act(z, min(l, nact - 1))
            x, size, cin = y, out, c
        tot = ZERO
        for v in x.values():
            tot = tot + v
        return tot * fn("pow", const(len(x)), const(Fraction(-1, 2)))

    full = lambda size, F, strides: [(f - 1, f - 1) for f in F]

    def same(size, F, strides):
        r = []
        for n, s, f in zip(size, strides, F):
            t = max((-(-n // s) - 1) * s + f - n, 0)
            r.append((t // 2, t - t // 2))
        return r

    def cnn(q, real, dims, F, channels, strides, nact, bias, first, periodic, pads):
        I, m, ly = cnn_build(q, real, dims, F, channels, strides, nact, bias, first, periodic)
        got, why = output(I, m, spins(I, dims))
        if got is None:
            return why
        tags = weights(ly, "conv")
        if len(set(tags)) != len(channels):
            return dunno("layers %s" % tags)
        want = conv_layers(tags, ly.props, pm, dims, F, channels, strides, nact, bias, first, pads)
        ctx.done(I)
        return compare(I, Tensor((), got), Tensor((), want), label="output", seeds=3, allow=ly.names() + names)

    def invariant(q, real, dims, F, channels, nact):
        """periodic boundaries: translated configurations have the same amplitude"""
        res = []
        for sh in itertools.product(*[range(n) for n in dims]):
            if sum(1 for x in sh if x) != 1:
                continue
            I, m, ly = cnn_build(q, real, dims, F, channels, (1,) * len(dims), nact, True, True, True)
            one, why = output(I, m, spins(I, dims))
            if one is None:
                return why
            vs = [var(Dim.of_const(n)) for n in dims]
            x = Tensor([(v,) for v in vs], sym("s", [nf.mod(v.as_poly() + const(a), const(n)) for v, a, n in zip(vs, sh, dims)], "i"))
            two, why = output(I, m, x)
            if two is None:
                return why
            ctx.done(I)
            res.append(compare(I, Tensor((), two), Tensor((), one), label="configuration translated by %s" % (sh,), seeds=3, allow=ly.names() + names))
            if res[-1].status != HOLDS:
                return res[-1]
        return conj(res)

    def cnn_sym(dims, signed):
        """average over an orbit, in the +1/-1 coding of configurations"""
        I = ctx.interp()
        ly = Layers(I, False, explicit=True)
        n = 1
        for d in dims:
            n *= d
        perms = [list(range(n)), list(range(1, n)) + [0]]
        els = [(p, 1) for p in perms] + ([(p, -1) for p in perms] if signed else [])
        mat = L.T.stack_literal([L.T.stack_literal([L.T.stack_literal([num(sg if j == p[i] else 0) for j in range(n)]) for i in range(n)]) for p, sg in els])
        orb = StubObj("orbit", {"orbit": mat, "factor": L.T.stack_literal([num(1) for _ in els])})
        m = flax_module(ctx, I, N + "cnn.CpxCNNSym", orbit=orb, F=Tup([num(2)] * len(dims)), channels=Tup([num(2)]), strides=Tup([num(1)] * len(dims)), actFun=Tup(acts(I, 1)), bias=Const(True), firstLayerBias=Const(True))
        sub = I.getattr(m, "cnn")
        got, why = output(I, m, spins(I, dims))
        if got is None:
            return why
        tags = sorted(set(weights(ly, "conv")))
        if len(tags) != 1:
            return dunno("layers %s" % tags)
        sites = list(itertools.product(*[range(d) for d in dims]))
        want = ZERO
        for p, sg in els:
            f = lambda ix: const(sg) * pm(sites[p[sites.index(ix)]])
            want = want + conv_layers(tags, "", f, dims, (2,) * len(dims), (2,), (1,) * len(dims), 1, True, True, None)
        ctx.done(I)
        return compare(I, Tensor((), got), Tensor((), want * const(Fraction(1, len(els)))), label="average over the orbit", seeds=3, allow=ly.names() + names)

    # -- two networks ------------------------------------------------------------------------------
    def two_nets(generative):
        I = ctx.interp()
        L_ = Dim.named("L")
        calls = []

        def net(j, gen):
            att = {}
            if gen:
                def smp(I, a, k):
                    calls.append((j, a, k))
                    return array("sample%d" % j, [L_], props="r")
                att["sample"] = PyFn(smp, "sample")
            return StubObj("net%d" % j, att, call=lambda I, a, k: Tensor((), fn("net%d" % j, I.node(I.num_of(a[0])), props="r")))
        m = flax_module(ctx, I, N + "two_nets_wrapper.TwoNets", nets=Tup([net(0, generative), net(1, False)]))
        s = array("s", [L_], props="r")
        got, why = output(I, m, s)
        if got is None:
            return why
        n = [fn("net%d" % j, I.node(s), props="r") for j in (0, 1)]
        r = [compare(I, Tensor((), got), Tensor((), n[0] + nf.I * n[1]), label="log-amplitude", allow=("net0", "net1"))]
        one = I.num_of(I.call(I.getattr(m, "eval_real"), [s], {}))
        r.append(compare(I, one, Tensor((), n[0]), label="eval_real", allow=("net0", "net1")))
        if generative:
            a = [Tensor((), sym("b")), Tensor((), sym("KEY"), kind="key")]
            x = I.call(I.getattr(m, "sample"), a, {})
            if len(calls) != 1 or calls[0][0] != 0 or [I.node(v) for v in calls[0][1]] != [I.node(v) for v in a]:
                return flaw(I, "samples are not drawn by the amplitude network with the given arguments: %s" % calls)
            r.append(compare(I, I.num_of(x), array("sample0", [L_], props="r"), label="samples", allow=("sample0",)))
        ctx.done(I)
        return conj(r)

    # -- activation functions ------------------------------------------------------------------------
    def log_cosh(real):
        I = ctx.interp()
        x = sym("x", props="r") if real else sym("x", props="r") + nf.I * sym("y", props="r")
        r = I.num_of(I.call(fnv(ctx, I, AF + "log_cosh"), [Tensor((), x)], {}))
        if r.axes is None or r.unk or I.tainted:
            return dunno("value %s" % short(r))
        ctx.done(I)
        c = fn("cosh", x)
        mod2 = L.real_part(c) * L.real_part(c) + L.imag_part(c) * L.imag_part(c)
        return conj([compare(I, Tensor((), fn("exp", r.body)), Tensor((), c), label="exp(log_cosh(x))", seeds=6),
                     compare(I, Tensor((), fn("exp", L.real_part(r.body) * const(2))), Tensor((), mod2), label="squared modulus", seeds=6)])

    SERIES = {"square": {2: Fraction(1)}, "poly5": {1: Fraction(1), 3: Fraction(-1, 3), 5: Fraction(2, 15)}, "poly6": {2: Fraction(1, 2), 4: Fraction(-1, 12), 6: Fraction(1, 45)}}

    def series(name):
        """polynomial activations: the documented square and the series of tanh and log cosh (coefficients to eight digits)"""
        I = ctx.interp()
        x = sym("x")
        r = I.num_of(I.call(fnv(ctx, I, AF + name), [Tensor((), x)], {}))
        if r.axes is None or r.unk or I.tainted:
            return dunno("value %s" % short(r))
        ctx.done(I)
        want, p = SERIES[name], r.body
        cs = coefficients(p)
        if cs is None:
            return dunno("not a polynomial: %s" % pretty(p))
        for d in set(cs) | set(want):
            if abs(cs.get(d, 0) - want.get(d, 0)) > Fraction(1, 10 ** 8):
                return flaw(I, "coefficient of x^%d is %s, expected %s" % (d, float(cs.get(d, 0)), want.get(d, 0)))
        return ok()

    # -- obligations -----------------------------------------------------------------------------------
    for dims in ((1,), (3,), (2, 2)):
        d = "x".join(map(str, dims))
        for bias in (False, True):
            b = "-bias" if bias else ""
            if len(dims) == 1:
                ctx.ob("rbm/real-%s%s" % (d, b), "amplitude", where(ctx, N + "rbm.RBM"), lambda a=(dims, 2, bias): rbm("rbm.RBM", True, a[0], a[1], a[2], True))
            ctx.ob("rbm/complex-%s%s" % (d, b), "amplitude", where(ctx, N + "rbm.CpxRBM"), lambda a=(dims, 2, bias): rbm("rbm.CpxRBM", False, a[0], a[1], a[2], True))
            ctx.ob("rbm/nospinflip-%s%s" % (d, b), "amplitude", where(ctx, N + "rbm.CpxRBM_Nospinflip"), lambda a=(dims, 2, bias): rbm("rbm.CpxRBM_Nospinflip", False, a[0], a[1], a[2], False))
    for dims, layers, na, bias in (((3,), (2,), 1, False), ((3,), (2, 3), 1, True), ((2, 2), (2, 3), 2, True), ((2,), (2, 2), 3, False), ((2,), (1,), 2, True), ((2,), (), 1, True)):
        ctx.ob("ffn/%s-%s-%d%s" % ("x".join(map(str, dims)), ",".join(map(str, layers)), na, "-bias" if bias else ""), "layers", where(ctx, N + "ffn.FFN"), lambda a=(dims, layers, na, bias): ffn(*a))
    CN = [((4,), (2,), (2,), (1,), 1, True, False), ((4,), (3,), (2, 2), (1,), 1, True, False), ((3,), (2,), (2, 1), (1,), 2, False, True), ((4,), (2,), (2, 2), (2,), 1, True, True),
          ((2, 3), (2, 2), (2,), (1, 1), 1, True, True), ((2, 2), (1, 2), (2, 1), (1, 1), 1, True, False), ((3,), (3,), (1, 2, 2), (1,), 2, True, False)]
    for dims, F, ch, st, na, bias, first in CN:
        key = "%s-F%s-c%s-s%s-%d%s%s" % ("x".join(map(str, dims)), "x".join(map(str, F)), ",".join(map(str, ch)), ",".join(map(str, st)), na, "-bias" if bias else "", "-first" if first else "")
        for q, real in (("cnn.CNN", True), ("cnn.CpxCNN", False)):
            ctx.ob("%s/periodic-%s" % (q[4:], key), "convolutions", where(ctx, N + q), lambda a=(q, real, dims, F, ch, st, na, bias, first, True, None): cnn(*a))
        ctx.ob("CNN/open-%s" % key, "convolutions", where(ctx, N + "cnn.CNN"), lambda a=("cnn.CNN", True, dims, F, ch, st, na, bias, first, False, full): cnn(*a))
        ctx.ob("CpxCNN/open-%s" % key, "convolutions", where(ctx, N + "cnn.CpxCNN"), lambda a=("cnn.CpxCNN", False, dims, F, ch, st, na, bias, first, False, same): cnn(*a))
    for dims, F, ch in (((3,), (2,), (2, 2)), ((4,), (3,), (2,)), ((2, 2), (2, 2), (2,)), ((2, 3), (2, 1), (1, 2))):
        for q, real in (("cnn.CNN", True), ("cnn.CpxCNN", False)):
            ctx.ob("%s/translations-%s-F%s-c%s" % (q[4:], "x".join(map(str, dims)), "x".join(map(str, F)), ",".join(map(str, ch))), "translation-invariance", where(ctx, N + q),
                   lambda a=(q, real, dims, F, ch, 1): invariant(*a))
    for dims in ((3,), (2, 2)):
        for sg in (False, True):
            ctx.ob("CpxCNNSym/%s%s" % ("x".join(map(str, dims)), "-spinflip" if sg else ""), "orbit-average", where(ctx, N + "cnn.CpxCNNSym"), lambda a=(dims, sg): cnn_sym(*a))
    for g in (False, True):
        ctx.ob("two-nets/%s" % ("generative" if g else "plain"), "modulus-and-phase", where(ctx, N + "two_nets_wrapper.TwoNets"), lambda g=g: two_nets(g))
    for r in (True, False):
        ctx.ob("log_cosh/%s" % ("real" if r else "complex"), "activation", where(ctx, AF + "log_cosh"), lambda r=r: log_cosh(r))
    for n in SERIES:
        ctx.ob("activation/" + n, "activation", where(ctx, AF + n), lambda n=n: series(n))
    ctx.floor("obligations", len(ctx.obs), 60)

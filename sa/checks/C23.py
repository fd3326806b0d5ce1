from .flaxm import *
from fractions import Fraction
import itertools

B = Dim.named("batch")
TITLE = "Autoregressive networks are normalised and sample their own distribution"
NETS = {1: "jVMC.nets.rnn1d_general.RNN1DGeneral", 2: "jVMC.nets.rnn2d_general.RNN2DGeneral"}


def lit(I, xs):
    return L.T.stack_literal([num(x) if isinstance(x, int) else lit(I, x) for x in xs])


def run(ctx):
    def build(dim, L_, d, depth, cell, real_out, kappa, real=True, hidden=2):
        I = ctx.interp()
        ly = Layers(I, real)
        kw = dict(L=num(L_), hiddenSize=num(hidden), depth=num(depth), inputDim=num(d), logProbFactor=Tensor((), const(kappa)),
                  realValuedOutput=Const(real_out), realValuedParams=Const(real))
        if cell == "custom":
            cells = []
            for j in range(depth):
                def step(I, a, k, j=j):
                    c = I.num_of(a[0]).opened()
                    new = Tensor(c.axes, fn("cell%d" % j, *[v.as_poly() for ax in c.axes for v in ax], *[I.node(I.num_of(x)) for x in a], props="r"))
                    h = var(Dim.of_const(hidden))
                    return Tup([new, Tensor([(h,)], fn("cellout%d" % j, h.as_poly(), *[I.node(I.num_of(x)) for x in a], props="r"))])
                cells.append(PyFn(step, "cell"))
            ax = ([L_] if dim == 2 else []) + [depth, 1, hidden]
            kw["cell"] = Tup([I.list(cells), array("z", [Dim.of_const(n) for n in ax], props="r")])
        else:
            kw["cell"] = Const(cell)
        m = flax_module(ctx, I, NETS[dim], **kw)
        return I, m, ly

    def configs(dim, L_, d):
        n = L_ if dim == 1 else L_ * L_
        return list(itertools.product(range(d), repeat=n))

    def shaped(I, s, dim, L_):
        return lit(I, s if dim == 1 else [s[i * L_:(i + 1) * L_] for i in range(L_)])

    def log_psi(I, m, s, dim, L_):
        r = I.num_of(I.call(m, [shaped(I, s, dim, L_)], {}))
        if r.axes is None or r.unk or I.tainted:
            return None, dunno("output %s %s" % (short(r), "; ".join(I.notes[-2:])))
        if r.rank:
            return None, flaw(I, "the output has shape %s instead of being a number" % [pretty(x) for x in r.shape()])
        return r.body, None

    def weight(p, kappa):
        """log of |psi|^(1/kappa)"""
        return L.real_part(p) * const(1 / kappa)

    def normalised(dim, L_, d, depth, cell, real_out, kappa, real=True):
        I, m, ly = build(dim, L_, d, depth, cell, real_out, kappa, real)
        tot = ZERO
        for s in configs(dim, L_, d):
            p, why = log_psi(I, m, s, dim, L_)
            if p is None:
                return why
            tot = tot + fn("exp", weight(p, kappa))
        ctx.done(I)
        return compare(I, Tensor((), tot), num(1), label="sum over all configurations of |psi|^(1/kappa), kappa=%s" % kappa, seeds=4, allow=ly.names())

    def output_kind(dim, real_out):
        """real output: logarithm of a positive number; complex output: phases of different configurations are unrelated"""
        I, m, ly = build(dim, 2, 2, 1, "RNN", real_out, Fraction(1, 2))
        p, why = log_psi(I, m, (1,) * (2 if dim == 1 else 4), dim, 2)
        if p is None:
            return why
        im = L.imag_part(p)
        ctx.done(I)
        if real_out:
            return compare(I, Tensor((), im), num(0), label="imaginary part of a real-valued network")
        c = compare(I, Tensor((), im), num(0), label="imaginary part")
        return flaw(I, "a network with complex output has no phase") if c.status == HOLDS else ok()

    def sampled(dim, L_, d, depth, cell, real_out, kappa, some=None):
        """the distribution of the generated configurations, draw by draw"""
        n = L_ if dim == 1 else L_ * L_
        seen, res = {}, []
        for v in some or itertools.product(range(d), repeat=n):
            I, m, ly = build(dim, L_, d, depth, cell, real_out, kappa)
            draws = []

            def categorical(I, a, k):
                lg = I.num_of(L.arg(a, k, 1, "logits"))
                if lg.axes is None or lg.rank != 1 or len(a) > 2 or any(q not in ("logits", "key") for q in k):
                    raise Unknown("categorical draw")
                if len(draws) >= n:
                    raise Unknown("more draws than sites")
                x = v[len(draws)]
                if lg.axis_size(0).int_value() != d:
                    I.tainted = True
                    raise Unknown("number of logits")
                e = [lg.index_axis(0, const(i)).body for i in range(d)]
                draws.append((L.arg(a, k, 0, "key"), e[x] - fn("log", sum((fn("exp", y) for y in e), ZERO)), tuple(I.lanes)))
                return num(x)
            I.lib["jax.random.categorical"] = functools.partial(categorical)
            r = I.num_of(I.call(I.getattr(m, "sample"), [Tensor((), B.size), Tensor((), sym("KEY"), kind="key")], {}))
            if r.axes is None or r.unk or I.tainted or len(draws) != n:
                return dunno("samples %s, %d draws, %s" % (short(r), len(draws), "; ".join(I.notes[-2:])))
            want_rank = 2 if dim == 1 else 3
            if r.rank != want_rank or not equal(r.axis_size(0), B.size):
                return flaw(I, "samples have shape %s" % [pretty(x) for x in r.shape()])
            one = r.index_axis(0, var(B).as_poly())
            flat = L.T.reshape(one, [const(n)]) if dim == 2 else one
            first = tuple(flat.index_axis(0, const(i)).body.int_value() for i in range(n))
            if None in first:
                return dunno("sample %s" % short(flat))
            if first in seen:
                return flaw(I, "draws %s and %s give the same configuration %s" % (seen[first], v, first))
            seen[first] = v
            p, why = log_psi(I, m, first, dim, L_)
            if p is None:
                return why
            got = sum((x for _, x, _ in draws), ZERO)
            res.append(compare(I, Tensor((), got), Tensor((), weight(p, kappa)), label="log-probability of generating %s" % (first,), seeds=4, allow=ly.names()))
            if res[-1].status != HOLDS:
                return res[-1]
            # independent randomness: distinct keys for all sites and all samples of the batch
            ks = {}
            for i, (key, _, lanes) in enumerate(draws):
                kb = I.num_of(key).body
                if kb.unk:
                    return dunno("key %s" % short(key))
                if not any(z.name in kb.fv for z in lanes):
                    return flaw(I, "the key of site %d does not depend on the sample: %s" % (i, pretty(kb)))
                if kb.key in ks:
                    return flaw(I, "draws %d and %d use the same key %s" % (ks[kb.key], i, pretty(kb)))
                ks[kb.key] = i
            ctx.done(I)
        return conj(res)

    H, O = Fraction(1, 2), Fraction(1)
    CASES = [(1, 2, 2, 1, "RNN", False, H), (1, 3, 2, 2, "RNN", False, H), (1, 3, 2, 1, "RNN", True, O), (1, 2, 4, 1, "RNN", True, O), (1, 2, 3, 1, "RNN", False, H),
             (1, 2, 2, 2, "LSTM", True, H), (1, 2, 2, 2, "GRU", True, H), (1, 3, 2, 1, "LSTM", False, H), (1, 3, 2, 1, "GRU", True, O), (1, 2, 2, 2, "custom", False, H), (1, 1, 2, 1, "RNN", False, H),
             (2, 2, 2, 1, "RNN", False, H), (2, 2, 2, 2, "RNN", True, O), (2, 2, 2, 1, "LSTM", True, H), (2, 2, 2, 1, "GRU", True, H), (2, 2, 2, 2, "custom", False, H), (2, 1, 3, 1, "RNN", False, H)]
    if ctx.tier == "thorough":
        CASES += [(1, 4, 2, 2, "RNN", False, H), (1, 4, 2, 2, "LSTM", True, O), (2, 2, 3, 1, "RNN", True, O), (2, 2, 2, 2, "LSTM", False, H)]
    for c in CASES:
        key = "%dd-L%d-d%d-depth%d-%s-%s-kappa%s" % (c[:5] + ("real" if c[5] else "complex", c[6]))
        ctx.ob("normalised/" + key, "normalisation", where(ctx, NETS[c[0]]), lambda c=c: normalised(*c))
        ctx.ob("sampled/" + key, "sampling-distribution", where(ctx, NETS[c[0]] + ".sample"), lambda c=c: sampled(*c))
    import random
    rnd = random.Random(1)
    for L_, cell, depth in ((3, "RNN", 1), (3, "LSTM", 2), (3, "GRU", 1), (4, "RNN", 2)):
        pats = sorted({tuple(rnd.randrange(2) for _ in range(L_ * L_)) for _ in range((4 if L_ == 3 else 2) * (1 if ctx.tier == "quick" else 6))})
        ctx.ob("sampled/2d-L%d-%s" % (L_, cell), "sampling-distribution", where(ctx, NETS[2] + ".sample"), lambda a=(2, L_, 2, depth, cell, True, H, pats): sampled(*a))
    for cell in ("RNN", "LSTM"):
        pats = sorted({tuple(rnd.randrange(3) for _ in range(6)) for _ in range(4 if ctx.tier == "quick" else 24)})
        ctx.ob("sampled/1d-L6-%s" % cell, "sampling-distribution", where(ctx, NETS[1] + ".sample"), lambda a=(1, 6, 3, 2, cell, False, H, pats): sampled(*a))
    for dim in (1, 2):
        for ro in (True, False):
            ctx.ob("output/%dd-%s" % (dim, "real" if ro else "complex"), "output-kind", where(ctx, NETS[dim]), lambda a=(dim, ro): output_kind(*a))
        ctx.ob("normalised/%dd-complex-parameters" % dim, "normalisation", where(ctx, NETS[dim]), lambda dim=dim: normalised(dim, 2, 2, 1, "RNN", False, H, real=False))
    ctx.floor("obligations", len(ctx.obs), 30)

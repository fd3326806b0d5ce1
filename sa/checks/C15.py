from .common import *

TITLE = "Local estimators equal the sum over connected configurations"
B = "jVMC.operator.base.Operator"


def spec_op(ctx, n=3, pre=True, batch=None, logarithmic=True, **ov):
    """operator with arbitrary connected configurations / matrix elements; optional argument preprocessor"""
    def fun(I, a, k):
        s = a[0]
        args = [I.node(x) for x in a[1:]]
        v, site = var(Dim.of_const(n)), V_("site")
        sp = Tensor([(v,), (site,)], fn("SP", v.as_poly(), site.as_poly(), I.node(s), *args, props="rin"))
        me = Tensor([(v,)], fn("ME", v.as_poly(), I.node(s), *args))
        return Tup([sp, me])

    def comp(I, a, k):
        f = PyFn(fun, "connected")
        if not pre:
            return f
        return Tup([f, PyFn(lambda I, a, k: Tup([Tensor((), fn("PRE", *[I.node(x) for x in a]))]), "preprocess")])
    I = ctx.interp(overrides={B + ".compile": PyFn(comp, "compile")})
    kw = {} if batch is None else {"ElocBatchSize": batch}
    o = I.call(cls(ctx, B), [], kw)
    return I, o


def logpsi(I, s):
    return fn("logpsi", I.node(s))


def make_psi(logarithmic=True, log=None):
    def call(I, a, k):
        s = a[0].opened()
        x, y = s.axes[0], s.axes[1]
        if log is not None:
            log.append(s)
        row = Tensor(s.axes[2:], s.body)
        return Tensor([x, y], fn("logpsi" if logarithmic else "psi", I.node(row)))
    net = StubObj("net", {"apply": PyFn(lambda I, a, k: Tensor((), fn("apply", I.node(a[0]), I.node(a[1]))), "apply")})
    return StubObj("psi", {"logarithmic": Const(logarithmic), "net": net}, call=call)


def conf_row(I, s, d, b):
    return s.index_axis(0, d.as_poly()).index_axis(0, b.as_poly())


def oloc_spec(I, s, d, b, n, args, logarithmic, amp=None, pre=True):
    row = conf_row(I, s, d, b)
    ar = [fn("PRE", *[I.node(x) for x in args])] if pre else [I.node(x) for x in args]
    tot = ZERO
    for k in range(n):
        site = V_("site")
        sp = Tensor([(site,)], fn("SP", const(k), site.as_poly(), I.node(row), *ar, props="rin"))
        me = fn("ME", const(k), I.node(row), *ar)
        if logarithmic:
            z = fn("exp", fn("logpsi", I.node(sp)) - (amp or fn("logpsi", I.node(row))))
        else:
            z = fn("psi", I.node(sp)) * (fn("exp", -amp) if amp is not None else fn("psi", I.node(row)).pow(F(-1)))
        tot = tot + me * z
    return tot


SZ = dict(site=2)


def run(ctx):
    wh = where(ctx, B + ".get_O_loc")
    n = 3

    def case(logarithmic, batch, given, nargs, pre=True, samples=None):
        I, o = spec_op(ctx, n, pre=pre, batch=None if batch is None else num(batch))
        psi = make_psi(logarithmic)
        s = data("s", "dev", "batch" if samples is None else Dim.of_const(samples), "site", props="rin")
        args = [Tensor((), sym("t%d" % q, props="r")) for q in range(nargs)]
        amp = data("lp", "dev", "batch" if samples is None else Dim.of_const(samples)) if given else NONE
        r = I.call(I.getattr(o, "get_O_loc"), [s, psi, amp] + args, {})
        ctx.done(I)
        d = V_("dev")
        b = V_("batch") if samples is None else var(Dim.of_const(samples))
        want = T([d, b], oloc_spec(I, s, d, b, n, args, logarithmic, at(amp, d, b) if given else None, pre))
        return compare(I, r, want, sizes=SZ, label="%s, %s%s%d arguments" % ("log amplitudes" if logarithmic else "amplitudes",
                       "batch size %s of %s, " % (batch, samples) if batch else "", "given amplitudes, " if given else "", nargs))
    for logarithmic in (True, False):
        for given in (False, True):
            ctx.ob("plain/%s/%s" % ("log" if logarithmic else "lin", "given" if given else "own"), "local-estimator", wh,
                   lambda l=logarithmic, g=given: case(l, None, g, 1))
    ctx.ob("plain/no-arguments", "local-estimator", wh, lambda: conj([case(True, None, True, 0, pre=False), case(True, None, True, 2, pre=False), case(True, None, False, 0)]))

    def est(pre, nargs):
        I, o = spec_op(ctx, n, pre=pre)
        psi = make_psi(True)
        args = [Tensor((), sym("t%d" % q, props="r")) for q in range(nargs)]
        f = I.call(I.getattr(o, "get_estimator_function"), [psi] + args, {})
        row = array("c", ["site"], props="rin")
        par = Tensor((), sym("theta"))
        r = I.call(f, [par, row], {})
        ctx.done(I)
        ar = [fn("PRE", *[I.node(x) for x in args])] if pre else [I.node(x) for x in args]
        tot = ZERO
        for k in range(n):
            site = V_("site")
            sp = Tensor([(site,)], fn("SP", const(k), site.as_poly(), I.node(row), *ar, props="rin"))
            tot = tot + fn("ME", const(k), I.node(row), *ar) * fn("exp", fn("apply", I.node(par), I.node(sp)) - fn("apply", I.node(par), I.node(row)))
        return compare(I, r, Tensor((), tot), sizes=SZ, label="estimator function, %d arguments" % nargs)
    ctx.ob("estimator-function", "local-estimator", where(ctx, B + ".get_estimator_function"), lambda: conj([est(True, 1), est(False, 0), est(False, 1), est(True, 0)]))

    whb = where(ctx, B + ".get_O_loc_batched")
    for samples, batch in ((4, 2), (5, 2), (5, 3), (7, 3), (3, 4), (3, 1)):
        ctx.ob("batched/%d-by-%d" % (samples, batch), "local-estimator", whb,
               lambda s=samples, b=batch: conj([case(True, b, True, 1, samples=s), case(False, b, False, 1, samples=s)]))

    def history():
        """evaluations after each other do not influence each other"""
        rs = []
        for pre, nargs in ((True, (1, 1, 2)), (False, (1, 0, 1))):
            I, o = spec_op(ctx, n, pre=pre)
            psi = make_psi(True)
            for q, na in enumerate(nargs):
                s = data("s%d" % q, "dev", "batch", "site", props="rin")
                args = [Tensor((), sym("t%d%d" % (q, j), props="r")) for j in range(na)]
                r = I.call(I.getattr(o, "get_O_loc"), [s, psi, NONE] + args, {})
                d, b = V_("dev"), V_("batch")
                rs.append(compare(I, r, T([d, b], oloc_spec(I, s, d, b, n, args, True, None, pre)), sizes=SZ, label="evaluation %d" % q))
            ctx.done(I)
        return conj(rs)
    ctx.ob("history", "local-estimator", where(ctx, B + ".get_s_primes"), history)

    def two_step():
        """get_s_primes followed by get_O_loc_unbatched"""
        I, o = spec_op(ctx, n)
        psi = make_psi(True)
        s = data("s", "dev", "batch", "site", props="rin")
        args = [Tensor((), sym("t", props="r"))]
        r = I.call(I.getattr(o, "get_s_primes"), [s] + args, {})
        sp, me = I.unpack(r, 2)
        lp = I.call(psi, [s], {})
        out = I.call(I.getattr(o, "get_O_loc_unbatched"), [lp, I.call(psi, [sp], {})], {})
        ctx.done(I)
        d, b = V_("dev"), V_("batch")
        return compare(I, out, T([d, b], oloc_spec(I, s, d, b, n, args, True)), sizes=SZ)
    ctx.ob("two-step", "local-estimator", where(ctx, B + ".get_O_loc_unbatched"), two_step)
    ctx.floor("obligations", len(ctx.obs), 14)
    ctx.assumptions += ["three connected configurations per configuration; matrix elements below the documented cutoff of the library (1e-6) may be dropped",
                        "batched evaluation is unrolled for the listed sample counts and batch sizes, unbatched evaluation is symbolic in the number of samples"]

from .samp import *
from .. import nf

TITLE = "Parallel computations run on the selected devices"
M = "jVMC.mpi_wrapper."
SO = "jVMC.stats.SampledObs"
G = "jVMC.global_defs."


def run(ctx):
    def world():
        I = ctx.interp(devices_current=False)
        I.lib = dict(I.lib)
        pool = [StubObj("device%d" % i, {"__distinct__": True}) for i in range(4)]
        I.lib["jax.devices"] = lambda I, a, k: I.list(list(pool))
        I.lib["jax.local_devices"] = I.lib["jax.devices"]
        I.lib["math.isclose"] = norm_zero
        I.lib["np.isclose"] = norm_zero
        I.lib["np.allclose"] = norm_zero
        return I, pool

    def ids(I, v):
        its = L.seq_items(I, v)
        if its is None or not all(isinstance(x, StubObj) for x in its):
            return None
        return sorted(x.name for x in its)

    def select(I, devs, single=False):
        I.call(fnv(ctx, I, G + "set_pmap_devices"), [devs[0] if single else I.list(list(devs))], {})

    def used(I, start, want, label):
        made = {id(e["mapped"]): e for e in I.events if e["kind"] == "pmap"}
        calls = [e for e in I.events[start:] if e["kind"] == "pmap-call"]
        if not calls:
            return dunno("%s: no parallel computation found" % label)
        for e in calls:
            m = made.get(id(e["mapped"]))
            if m is None:
                return dunno("%s: function of unknown origin at %s" % (label, e["where"]))
            d = m["devices"]
            if d is None or (isinstance(d, Const) and d.val is None):
                return flaw(I, "%s: the function made at %s is not bound to the selected devices" % (label, m["where"]))
            got = ids(I, d)
            if got is None:
                return dunno("%s: devices %s" % (label, short(d)))
            if got != want:
                return flaw(I, "%s: the function made at %s runs on %s instead of %s" % (label, m["where"], got, want))
        return ok()

    def history(op, phases=((0, 1), (2,), (0, 1), (0, 1, 3), (3, 1), (0, 1, 2, 3))):
        def go():
            I, pool = world()
            res = []
            start = len(I.events)
            label = "initially"
            op(I)
            res.append(used(I, start, sorted(x.name for x in pool), label))
            for ph in phases:
                devs = [pool[i] for i in ph]
                select(I, devs)
                start = len(I.events)
                op(I)
                res.append(used(I, start, sorted(x.name for x in devs), "after selecting %d devices" % len(devs)))
            ctx.done(I)
            if I.tainted:
                return dunno("; ".join(I.notes[-2:]))
            return conj(res)
        return go

    # -- the selection itself -------------------------------------------------------------------------
    def state():
        I, pool = world()
        res = []
        for devs, single in (([pool[1]], True), ([pool[0], pool[2]], False), ([pool[3]], False), ([pool[0], pool[1], pool[2]], False)):
            select(I, devs, single)
            want = sorted(x.name for x in devs)
            n = I.num_of(I.call(fnv(ctx, I, G + "device_count"), [], {}))
            res.append(compare(I, n, num(len(devs)), label="device_count()"))
            got = ids(I, I.call(fnv(ctx, I, G + "devices"), [], {}))
            if got is None:
                return dunno("devices()")
            if got != want:
                return flaw(I, "devices() returns %s after selecting %s" % (got, want))
            cnt = I.num_of(I.getattr(ModV("jVMC.global_defs"), "myDeviceCount"))
            res.append(compare(I, cnt, num(len(devs)), label="myDeviceCount"))
            d = I.getattr(ModV("jVMC.global_defs"), "myDevice")
            if not isinstance(d, StubObj):
                return dunno("myDevice %s" % short(d))
            if d.name not in want:
                return flaw(I, "the default device %s is not among the selected %s" % (d.name, want))
        ctx.done(I)
        return conj(res)
    ctx.ob("selection", "device-state", where(ctx, G + "set_pmap_devices"), state)

    def detect():
        I, pool = world()
        select(I, [pool[0], pool[1]])
        f = fnv(ctx, I, G + "pmap_devices_updated")
        for devs, want in (([0, 1], False), ([0], True), ([0, 2], True), ([0, 1, 2], True), ([], True), (None, True)):
            v = NONE if devs is None else I.list([pool[i] for i in devs])
            t = I.truth(I.call(f, [v], {}))
            if t.key not in (ONE.key, ZERO.key):
                return dunno("result %s for devices %s" % (pretty(t), devs))
            if (t.key == ONE.key) != want:
                return flaw(I, "a function made for devices %s is %s to be up to date with devices [0, 1]" % (devs, "assumed not" if not want else "assumed"))
        ctx.done(I)
        return ok()
    ctx.ob("change detection", "device-state", where(ctx, G + "pmap_devices_updated"), detect)

    # -- module-level functions ------------------------------------------------------------------------
    def X():
        return data("X", "dev", "batch", "n")

    def W_():
        return data("p", "dev", "batch", props="rnN")
    for q in ("global_sum", "global_mean", "global_variance", "global_covariance"):
        ctx.ob(q, "devices-of-parallel-calls", where(ctx, M + q), history(lambda I, q=q: I.call(fnv(ctx, I, M + q), [X()] if q == "global_sum" else [X(), W_()], {})))

    def two_reductions(I):
        """reductions share the cached functions"""
        I.call(fnv(ctx, I, M + "global_sum"), [X()], {})
        I.call(fnv(ctx, I, M + "global_covariance"), [X(), W_()], {})
        I.call(fnv(ctx, I, M + "global_mean"), [X(), W_()], {})
    ctx.ob("several reductions", "devices-of-parallel-calls", where(ctx, M + "jit_my_stuff"), history(two_reductions))

    def so(name, *args):
        def op(I):
            o = I.call(cls(ctx, SO), [X(), W_()], {})
            I.call(I.getattr(o, name), [a() if callable(a) else a for a in args], {})
        return op

    def so2(name):
        def op(I):
            a = I.call(cls(ctx, SO), [X(), W_()], {})
            b = I.call(cls(ctx, SO), [data("Y", "dev", "batch", "m"), W_()], {})
            I.call(I.getattr(a, name), [b], {})
        return op
    for n in ("mean", "var", "covar"):
        ctx.ob("SampledObs." + n, "devices-of-parallel-calls", where(ctx, SO + "." + n), history(so(n)))
    for n in ("covar", "covar_data", "covar_var"):
        ctx.ob("SampledObs.%s/pair" % n, "devices-of-parallel-calls", where(ctx, SO + "." + n), history(so2(n)))
    ctx.ob("SampledObs.select", "devices-of-parallel-calls", where(ctx, SO + ".select"), history(so("select", lambda: array("ix", [Dim.named("sel")], props="rin"))))

    def subset(I):
        o = I.call(cls(ctx, SO), [data("X", "dev", Dim.of_const(4), "n"), data("p", "dev", Dim.of_const(4), props="rnN")], {})
        I.call(I.getattr(o, "subset"), [num(1), num(3)], {})
    ctx.ob("SampledObs.subset", "devices-of-parallel-calls", where(ctx, SO + ".subset"), history(subset))

    def transform(I):
        o = I.call(cls(ctx, SO), [X(), W_()], {})
        I.call(I.getattr(o, "transform"), [PyFn(lambda I, a, k: a[0], "identity")], {})
    ctx.ob("SampledObs.transform", "devices-of-parallel-calls", where(ctx, SO + ".transform"), history(transform))

    # -- objects made after the selection ----------------------------------------------------------------
    def nqs_of(I, real=True, holo=False, gen=False, flat=False):
        net = make_net(I, real, holo, gen=gen, leaves=TINY)
        if flat and not gen:
            net.attrs["apply"] = PyFn(lambda I, a, k: Tensor((), sym("logpsi", props="r")), "apply")
        return I.call(cls(ctx, N), [net], {"batchSize": num(2)})

    def conf(n=3):
        return data("s", "dev", Dim.of_const(n), "site", props="rin")

    def evaluate(I):
        I.call(nqs_of(I), [conf()], {})
    ctx.ob("NQS/evaluation", "devices-of-parallel-calls", where(ctx, N + ".__call__"), history(evaluate))

    def gradients(real, holo):
        def op(I):
            psi = nqs_of(I, real, holo)
            I.call(I.getattr(psi, "gradients"), [conf()], {})
            I.call(I.getattr(psi, "gradients_dict"), [conf()], {})
        return op
    for real, holo in ((True, False), (False, True), (False, False)):
        ctx.ob("NQS/gradients-%s" % ("real" if real else "holomorphic" if holo else "complex"), "devices-of-parallel-calls", where(ctx, N + ".gradients"), history(gradients(real, holo)))

    def mcmc(I, gen=False):
        psi = nqs_of(I, gen=gen, flat=True)
        kw = dict(numChains=num(1), numSamples=num(1), thermalizationSweeps=num(0), sweepSteps=num(1))
        if not gen:
            kw["updateProposer"] = PyFn(lambda I, a, k: a[1], "proposer")
        smp = I.call(cls(ctx, SM + "MCSampler"), [psi, Tup([num(2)]), KEY], kw)
        I.call(I.getattr(smp, "sample"), [], {})
    ctx.ob("MCSampler/Markov chains", "devices-of-parallel-calls", where(ctx, SM + "MCSampler"), history(mcmc, phases=((0, 1), (2,))))
    ctx.ob("MCSampler/direct", "devices-of-parallel-calls", where(ctx, SM + "MCSampler"), history(lambda I: mcmc(I, True), phases=((0, 1), (2,))))

    def exact(I):
        smp = I.call(cls(ctx, SM + "ExactSampler"), [nqs_of(I), Tup([num(2)])], {})
        I.call(I.getattr(smp, "sample"), [], {})
    ctx.ob("ExactSampler", "devices-of-parallel-calls", where(ctx, SM + "ExactSampler"), history(exact, phases=((0, 1), (2,))))

    B = "jVMC.operator.base.Operator"

    def oloc(batch):
        def op(I):
            def fun(I, a, k):
                s = I.num_of(a[0])
                v, site = var(Dim.of_const(2)), V_("site")
                return Tup([Tensor([(v,), (site,)], fn("SP", v.as_poly(), site.as_poly(), I.node(s), props="rin")), Tensor([(v,)], fn("ME", v.as_poly(), I.node(s)))])
            I.overrides[B + ".compile"] = PyFn(lambda I, a, k: PyFn(fun, "connected"), "compile")
            o = I.call(cls(ctx, B), [], {} if batch is None else {"ElocBatchSize": num(batch)})
            I.call(I.getattr(o, "get_O_loc"), [conf(), nqs_of(I), data("lp", "dev", Dim.of_const(3))], {})
        return op
    for b in (None, 2):
        ctx.ob("Operator/%s" % ("whole" if b is None else "batched"), "devices-of-parallel-calls", where(ctx, B + ".get_O_loc"), history(oloc(b), phases=((0, 1), (2,))))
    ctx.floor("obligations", len(ctx.obs), 20)

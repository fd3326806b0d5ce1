from .mpisim import *
from .nqs import *
from .samp import SM, TINY, KEY
from .C15 import make_psi
from .C14 import Env_
from .h5 import Disk

TITLE = "Processes communicate in lockstep and agree on global results"
M = "jVMC.mpi_wrapper."
SO = "jVMC.stats.SampledObs"
DEV = Dim.named("dev")
n_ = Dim.named("n")


def run(ctx):
    def sizes(r, kind):
        return 3 if kind == "even" else 2 + r

    # ---- reductions over data of different length on the processes
    def red(fnm, P, kind, weights, dims=(n_,)):
        def body(p):
            X = p.data("X", DEV, sizes(p.r, kind), *dims)
            w = p.data("w", DEV, sizes(p.r, kind), props="rp")
            return [p.I.call(fnv(ctx, p.I, M + fnm), [X] + ([w] if weights else []), {})]
        return simulate(ctx, P, body)
    for f, w, dims in (("global_sum", False, (n_,)), ("global_sum", False, ()), ("global_mean", True, (n_,)), ("global_variance", True, (n_,)), ("global_covariance", True, (n_,)), ("gather", False, (n_,)), ("gather", False, ())):
        for kind in ("even", "uneven"):
            ctx.ob("%s/%d/%s" % (f, len(dims), kind), "lockstep", where(ctx, M + f), lambda a=(f, w, dims, kind): conj([red(a[0], P, a[3], a[1], a[2]) for P in (1, 2, 3)]))

    def bc(P, root, size=3):
        said = {}

        def body(p):
            I = p.I
            buf = array("BUF", [Dim.of_const(size)], props="r")
            I.overrides["dtype:BUF"] = Lib("np.float64")
            r = I.call(fnv(ctx, I, M + "bcast_unknown_size"), [buf if p.r == root else NONE], {} if root == 0 else {"root": num(root)})
            said[p.r] = (I, r)
            return [r]
        v = simulate(ctx, P, body)
        if v.status != HOLDS:
            return v
        for q, (I, r) in said.items():
            if "uninit" in I.num_of(r).key and not I.tainted:
                return bad("process %d returns memory that was never filled" % q)
        return conj([v] + [compare(I, I.num_of(r), array("BUF", [Dim.of_const(size)], props="r"), label="data received by process %d" % q) for q, (I, r) in said.items()])
    for P, root, size in ((2, 0, 3), (3, 0, 3), (2, 1, 3), (3, 2, 3), (2, 0, 1)):
        ctx.ob("bcast/%d/%d/%d" % (P, root, size), "lockstep", where(ctx, M + "bcast_unknown_size"), lambda a=(P, root, size): bc(*a))

    # ---- statistics of sampled data
    def so(P, kind, use):
        def body(p):
            I = p.I
            nb = 4 + 2 * p.r if kind != "even" else 4
            w = p.data("w", DEV, nb, props="rp")
            G, E = p.data("G", DEV, nb, n_), p.data("E", DEV, nb)
            go, eo = I.call(cls(ctx, SO), [G, w], {}), I.call(cls(ctx, SO), [E, w], {})
            return use(p, I, go, eo)
        return simulate(ctx, P, body)

    def m(name, *a, on="G", **kw):
        def use(p, I, go, eo):
            args = [{"E": eo, "G": go}.get(x, x) if isinstance(x, str) else x for x in a]
            return [I.call(I.getattr(go if on == "G" else eo, name), args, kw)]
        return use

    def derived(name, *a):
        def use(p, I, go, eo):
            d = I.call(I.getattr(go, "covar_data"), [eo], {})
            return [I.call(I.getattr(d, x), [], {}) for x in (name,) + a]
        return use

    def trans(p, I, go, eo):
        f = PyFn(lambda I, a, k: L.elementwise(lambda x: x * x.conjugate(), I.num_of(a[0])), "f")
        d = I.call(I.getattr(go, "transform"), [f], {})
        return [I.call(I.getattr(d, x), [], {}) for x in ("mean", "var")]

    def sub(p, I, go, eo):
        d, e = [I.call(I.getattr(o, "subset"), [num(0), NONE, num(2)], {}) for o in (go, eo)]
        return [I.call(I.getattr(d, "mean"), [], {}), I.call(I.getattr(d, "covar"), [e], {}), I.call(I.getattr(e, "var"), [], {})]

    uses = [("mean", m("mean")), ("var", m("var")), ("covar", m("covar")), ("covar/other", m("covar", "E")), ("covar_var", m("covar_var", "E")), ("covar_data", derived("mean", "var")),
            ("transform", trans), ("subset", sub), ("tangent_kernel", m("tangent_kernel"))]
    for nm, use in uses:
        for kind in ("even", "uneven"):
            ctx.ob("SampledObs/%s/%s" % (nm, kind), "lockstep", where(ctx, SO + "." + nm.split("/")[0]), lambda a=(kind, use): conj([so(2, *a), so(3, *a)]))

    # ---- samplers
    def net_of(I, r, gen=False):
        net = make_net(I, True, False, leaves=TINY, gen=gen)
        if not gen:
            count = [0]

            def apply(I, a, k):
                # some amplitude, different for every evaluation, process and mapped lane
                count[0] += 1
                return Tensor((), sym("PSI%d" % count[0], [const(r)] + [v.as_poly() for v in I.lanes]))
            net.attrs["apply"] = PyFn(apply, "apply")
        return I.call(cls(ctx, N), [net], {}), net

    def mc(P, samples, gen, acc):
        def body(p):
            I = p.I
            I.lib["math.isclose"] = I.lib["np.isclose"] = I.lib["np.allclose"] = norm_zero
            draws = [0]

            def bernoulli(I, a, k):
                draws[0] += 1
                ps = I.num_of(a[1] if len(a) > 1 else k["p"]).opened()
                return Tensor(ps.axes, sym("ACC%d" % draws[0], [const(p.r)] + [v.as_poly() for v in I.lanes] + [v.as_poly() for ax in ps.axes for v in ax], props="rbin"))
            I.lib["jax.random.bernoulli"] = bernoulli
            psi, net = net_of(I, p.r, gen)
            kw = dict(numChains=num(2), numSamples=num(samples), thermalizationSweeps=num(1), sweepSteps=num(1))
            if not gen:
                kw["updateProposer"] = PyFn(lambda I, a, k: opened(I, a, p), "proposer")
            smp = I.call(cls(ctx, SM + "MCSampler"), [psi, Tup([num(2)]), KEY], kw)
            out = []
            I.call(I.getattr(smp, "sample"), [], {})
            out.append(I.call(I.getattr(smp, "get_last_number_of_samples"), [], {}))
            if acc:
                out.append(I.call(I.getattr(smp, "acceptance_ratio"), [], {}))
            I.call(I.getattr(smp, "sample"), [], {"numSamples": num(samples + 1)})
            out.append(I.call(I.getattr(smp, "get_last_number_of_samples"), [], {}))
            return out
        return simulate(ctx, P, body)

    def opened(I, a, p):
        s = I.num_of(a[1]).opened()
        return Tensor(s.axes, sym("PROP", [const(p.r)] + [v.as_poly() for v in I.lanes] + [v.as_poly() for ax in s.axes for v in ax], props="rin"))
    for gen in (False, True):
        for samples in (4, 3):
            ctx.ob("MCSampler/%s/%d" % ("direct" if gen else "chains", samples), "lockstep", where(ctx, SM + "MCSampler.sample"), lambda a=(samples, gen, not gen): conj([mc(2, *a), mc(3, *a)]))

    def exact(P, sites, ldim):
        def body(p):
            I = p.I
            psi, net = net_of(I, p.r)
            smp = I.call(cls(ctx, SM + "ExactSampler"), [psi, Tup([num(sites)])], {"lDim": num(ldim)})
            for c in range(2):
                I.call(I.getattr(smp, "sample"), [], {})
            return []
        return simulate(ctx, P, body)
    for sites, ldim in ((2, 2), (1, 3), (2, 4)):
        ctx.ob("ExactSampler/%d/%d" % (sites, ldim), "lockstep", where(ctx, SM + "ExactSampler.sample"), lambda a=(sites, ldim): conj([exact(2, *a), exact(3, *a)]))

    # ---- equations of motion and measurements over sampled data
    def stubs(p, cnt, kind="uneven"):
        """sampler, state and operators whose data differ from process to process, also in number"""
        I = p.I
        nb = {"uneven": 4 + 2 * p.r, "small": 2, "any": Dim.named("b%d" % p.r)}[kind]
        par = [array("THETA", [n_], props="r")]

        def sample(I, a, k):
            cnt[0] += 1
            c = cnt[0]
            return Tup([p.data("SC%d" % c, DEV, nb, Dim.named("site"), props="rin"), p.data("LP%d" % c, DEV, nb), p.data("PR%d" % c, DEV, nb, props="rp")])
        smp = StubObj("sampler", {"sample": PyFn(sample, "sample"), "__isa__": (), "get_last_number_of_samples": PyFn(lambda I, a, k: Tensor((), sym("NS", props="ip")), "n")})
        psi = StubObj("psi", {"get_parameters": PyFn(lambda I, a, k: par[0], "g"), "set_parameters": PyFn(lambda I, a, k: (par.__setitem__(0, a[0]), NONE)[1], "s"),
                              "gradients": PyFn(lambda I, a, k: p.data("GR%d" % cnt[0], DEV, nb, n_), "gradients"), "__isa__": ("NQS",)})

        def op(name):
            return StubObj(name, {"__isa__": ("Operator",), "get_O_loc": PyFn(lambda I, a, k: p.data("%s%d" % (name, cnt[0]), DEV, nb), "get_O_loc")})
        return smp, psi, op, par

    def rhs(P, which, cross=False):
        def body(p):
            I = p.I
            cnt = [0]
            p.abstract_eigh()
            smp, psi, op, par = stubs(p, cnt, "small" if cross else "any" if which == "TDVP" else "uneven")
            if which == "TDVP":
                kw = dict(makeReal=Const("real"), pinvCutoff=num(F(9, 1000)), pinvTol=num(F(1, 2)))
                if cross:
                    kw["crossValidation"] = Const(True)
                eq = I.call(cls(ctx, "jVMC.util.tdvp.TDVP"), [smp], kw)
            else:
                eq = I.call(cls(ctx, "jVMC.util.minsr.MinSR"), [smp], {})
            out = []
            for st in ((0,) if cross else (0, 1)):
                out.append(I.call(eq, [array("PP%d" % st, [n_], props="r"), Tensor((), sym("t", props="r"))], dict(psi=psi, hamiltonian=op("H"), intStep=num(st))))
            for q in ("get_energy_mean", "get_energy_variance"):
                out.append(I.call(I.getattr(eq, q), [], {}))
            return out
        return simulate(ctx, P, body)
    ctx.ob("TDVP", "lockstep", where(ctx, "jVMC.util.tdvp.TDVP.__call__"), lambda: rhs(2, "TDVP"))
    ctx.ob("TDVP/cross validation", "lockstep", where(ctx, "jVMC.util.tdvp.TDVP.__call__"), lambda: rhs(2, "TDVP", True))
    ctx.ob("MinSR", "lockstep", where(ctx, "jVMC.util.minsr.MinSR.__call__"), lambda: conj([rhs(2, "MinSR"), rhs(3, "MinSR")]))

    def entries(I, r, names):
        return [I.getitem(I.getitem(r, Const(q)), Const(w)) for q in names for w in ("mean", "variance", "MC_error")]

    def meas(P):
        def body(p):
            I = p.I
            smp, psi, op, par = stubs(p, [0])
            r = I.call(fnv(ctx, I, "jVMC.util.util.measure"), [pdict(I, {"a": I.list([op("A"), op("B")]), "b": I.list([op("C")])}), psi, smp], {})
            return entries(I, r, "ab")
        return simulate(ctx, P, body)
    ctx.ob("measure", "lockstep", where(ctx, "jVMC.util.util.measure"), lambda: conj([meas(2), meas(3)]))

    def povm(P):
        def body(p):
            I = p.I
            smp, psi, op, par = stubs(p, [0])
            nb = 4 + 2 * p.r
            ev = PyFn(lambda I, a, k: Tup([p.data("EV", DEV, nb, props="r"), pdict(I, {q: p.data("EV%d" % q, DEV, nb, props="r") for q in (0, 1)})]), "evaluate_observable")
            pv = StubObj("povm", {"__isa__": (), "evaluate_observable": ev, "observables": pdict(I, {q: array("O" + q, [Dim.of_const(4)], props="r") for q in "XZ"})})
            r = I.call(fnv(ctx, I, "jVMC.operator.povm.measure_povm"), [pv, smp], {})
            return entries(I, r, ["X", "Z", "X_corr_L1"])
        return simulate(ctx, P, body)
    ctx.ob("measure_povm", "lockstep", where(ctx, "jVMC.operator.povm.measure_povm"), lambda: conj([povm(2), povm(3)]))

    def search(P, steps=2):
        def body(p):
            I = p.I
            cnt = [0]
            smp, psi, op, par = stubs(p, cnt)
            vs = iter((F(1, 2), F(1, 2), F(1, 2)))

            def eqf(I, a, k):
                r = I.num_of(I.call(fnv(ctx, I, M + "global_sum"), [p.data("U", DEV, 2 + p.r, n_, props="r")], {}))
                return r
            eq = StubObj("eq", {"diagonalShift": num(F(1, 10)), "set_diagonal_shift": PyFn(lambda I, a, k: NONE, "d"), "get_energy_variance": PyFn(lambda I, a, k: num(next(vs)), "v"),
                                "get_energy_mean": PyFn(lambda I, a, k: Tensor((), sym("EM", props="r")), "m")})
            eq.callf = eqf
            nop = PyFn(lambda I, a, k: NONE, "nop")
            outp = StubObj("outp", {q: nop for q in ("print", "print_timings", "start_timing", "stop_timing", "add_timing", "write_observables", "write_metadata")})
            I.call(fnv(ctx, I, "jVMC.util.util.ground_state_search"), [psi, op("H"), eq, smp],
                   dict(numSteps=num(steps), varianceTol=num(F(1, 10)), observables=pdict(I, {"a": I.list([op("A")])}), outp=outp))
            return [par[0]]
        return simulate(ctx, P, body)
    ctx.ob("ground state search", "lockstep", where(ctx, "jVMC.util.util.ground_state_search"), lambda: search(2))

    # ---- operators whose arguments are prepared by all processes together
    def oloc(P, counts, batch):
        B = "jVMC.operator.base.Operator"

        def body(p):
            I = p.I

            def fun(I, a, k):
                s = I.num_of(a[0])
                v, site = var(Dim.of_const(2)), V_("site")
                args = [I.node(x) for x in a[1:]]
                return Tup([Tensor([(v,), (site,)], fn("SP", v.as_poly(), site.as_poly(), I.node(s), *args, props="rin")), Tensor([(v,)], fn("ME", v.as_poly(), I.node(s), *args))])

            def pre(I, a, k):
                return Tup([I.call(fnv(ctx, I, M + "global_sum"), [p.data("PF", DEV, 2)], {})])
            I.overrides[B + ".compile"] = PyFn(lambda I, a, k: Tup([PyFn(fun, "connected"), PyFn(pre, "preprocess")]), "compile")
            o = I.call(cls(ctx, B), [], {} if batch is None else {"ElocBatchSize": num(batch)})
            psi = make_psi()
            s = p.data("s", DEV, counts[p.r], Dim.named("site"), props="rin")
            lp = p.data("lp", DEV, counts[p.r])
            for c in range(2):
                I.call(I.getattr(o, "get_O_loc"), [s, psi, lp, Tensor((), sym("t", props="r"))], {})
            I.call(I.getattr(o, "get_s_primes"), [s, Tensor((), sym("t", props="r"))], {})
            return []
        return simulate(ctx, P, body)
    for counts, batch in (((3, 3), None), ((2, 3), None), ((4, 4), 2), ((4, 5), 2), ((4, 5, 3), 2), ((2, 1), 3)):
        ctx.ob("local estimator/%s/%s" % ("-".join(map(str, counts)), batch), "lockstep", where(ctx, "jVMC.operator.base.Operator.get_O_loc"), lambda a=(len(counts), counts, batch): oloc(*a))

    def prefactors(P):
        def body(p):
            I = p.I
            e = Env_(ctx, shape=(1,), I=I)
            A, a = e.generic("A", 0)
            st = [e.mul(PyFn(lambda I, args, k, q=q: Tensor((), fn("f%d" % q, *[I.node(x) for x in args])), "f"), A) for q in range(51)]
            c = I.call(I.getattr(e.operator(st), "compile"), [], {})
            t = Tensor((), sym("t", props="r"))
            return list(I.call(c.items[1], [t], {}).items) + list(I.call(c.items[1], [t], {}).items)
        return simulate(ctx, P, body)
    for P in (2, 3):
        ctx.ob("prefactors/%d" % P, "lockstep", where(ctx, "jVMC.operator.branch_free.BranchFreeOperator.compile"), lambda P=P: prefactors(P))

    def checkpoint(P, query):
        O = "jVMC.util.output_manager.OutputManager"

        def body(p):
            I = p.I
            disk = Disk()
            disk.install(I)
            for i in range(3):
                I.overrides["dtype:W%d" % i] = Lib("np.float64")
            o = I.call(cls(ctx, O), [Const("out.hdf5")], {})
            for i in range(3):
                I.call(I.getattr(o, "write_network_checkpoint"), [num(i), array("W%d" % i, [Dim.of_const(2)], props="r")], {})
            return list(I.unpack(I.call(I.getattr(o, "get_network_checkpoint"), [], {k: num(v) for k, v in query.items()}), 2))
        return simulate(ctx, P, body)
    for q in ({}, {"time": F(5, 4)}, {"idx": 0}):
        ctx.ob("checkpoint/%s" % (",".join(q) or "latest"), "lockstep", where(ctx, "jVMC.util.output_manager.OutputManager.get_network_checkpoint"), lambda q=q: conj([checkpoint(P, q) for P in (2, 3)]))
    ctx.floor("obligations", len(ctx.obs), 60)

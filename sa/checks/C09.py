from .samp import *
from .C07 import net_eval, scalar_param

TITLE = "Explicitly supplied parameters are used throughout and the state is left as it was"
P1 = array("P1", [Dim.of_const(2)], props="r")


def run(ctx):
    def setup(gen=False):
        I = ctx.interp()
        net = make_net(I, True, False, gen=gen, leaves=TINY)
        used = []

        def apply(I, a, k):
            p = scalar_param(I, a[0])
            used.append((p, I.where()))
            if k.get("method") is not None:
                v, x = var(Dim.of_const(2)), var(Dim.of_const(2))
                return Tensor([(v,), (x,)], fn("GEN", v.as_poly(), x.as_poly(), p, I.node(a[2]), props="rin"))
            return Tensor((), net_eval(I, a[1], False, p))
        net.attrs["apply"] = PyFn(apply, "apply")
        psi = I.call(cls(ctx, N), [net], {})
        return I, psi, used

    def state(I, psi):
        return I.num_of(I.call(I.getattr(psi, "get_parameters"), [], {}))

    def expected(I, psi):
        """value of the scalar parameter if the vector P1 is set"""
        old = state(I, psi)
        I.call(I.getattr(psi, "set_parameters"), [P1], {})
        p = scalar_param(I, I.getattr(psi, "parameters"))
        I.call(I.getattr(psi, "set_parameters"), [old], {})
        return p, scalar_param(I, I.getattr(psi, "parameters"))

    def follow(I, used, n0, want, what):
        if len(used) == n0:
            return dunno("no evaluation of the network seen")
        for p, w in used[n0:]:
            r = compare(I, p, want, label="parameters of the network evaluation at %s %s" % (w, what))
            if r.status != HOLDS:
                return r
        return ok("%d evaluations" % (len(used) - n0))

    def sampler(kind, calls):
        I, psi, used = setup(kind == "direct")
        if kind == "exact":
            smp = I.call(cls(ctx, SM + "ExactSampler"), [psi, Tup([num(2)])], {})
        else:
            args = dict(numChains=num(1), numSamples=num(1), thermalizationSweeps=num(0), sweepSteps=num(1))
            if kind == "mcmc":
                args["updateProposer"] = PyFn(lambda I, a, k: a[1], "proposer")
            I.overrides["jVMC.mpi_wrapper.distribute_sampling"] = PyFn(lambda I, a, k: Tup([num(2 if kind == "direct" else 1), Tensor((), sym("GN", props="ip"))]), "distribute_sampling")
            smp = I.call(cls(ctx, SM + "MCSampler"), [psi, Tup([num(2)]), KEY], args)
        new, cur = expected(I, psi)
        if new == cur:
            return dunno("parameters not followed")
        rs = []
        before = state(I, psi)
        for c in calls:
            n0 = len(used)
            r = I.call(I.getattr(smp, "sample"), [], {"parameters": P1} if c else {})
            rs.append(follow(I, used, n0, new if c else cur, "while sampling with %s parameters" % ("supplied" if c else "its own")))
            l = I.num_of(I.unpack(r, 3)[1])
            ps = {a.args[0].key for a in l.body.atoms() if a.kind == "fn" and a.name == "NET"}
            if ps != {(new if c else cur).key}:
                rs.append(flaw(I, "amplitudes returned by sample() belong to parameters %s instead of %s" % (sorted(ps), new if c else cur)))
            rs.append(compare(I, state(I, psi), before, label="parameters after sample()"))
        ctx.done(I)
        return conj(rs)
    for kind in ("mcmc", "direct", "exact"):
        q = SM + ("ExactSampler.sample" if kind == "exact" else "MCSampler.sample")
        ctx.ob("sample/%s" % kind, "parameter-scope", where(ctx, q), lambda k=kind: sampler(k, (True,)))
        ctx.ob("sample/%s/sequence" % kind, "parameter-scope", where(ctx, q), lambda k=kind: sampler(k, (False, True, False, True)))

    def solver(name, extra, nsamp):
        """TDVP / MinSR as right-hand side: samples, local energies and gradients all belong to the given parameters"""
        I = ctx.interp()
        cur = [array("THETA", [Dim.of_const(2)], props="r")]
        log = []

        def getp(I, a, k):
            return cur[0]

        def setp(I, a, k):
            cur[0] = a[0]
            return NONE

        def grads(I, a, k):
            log.append(("gradients", cur[0], a, k))
            return data("GR", "dev", "batch", Dim.of_const(2))

        def sample(I, a, k):
            log.append(("sample", cur[0], a, k))
            return Tup([data("SC", "dev", "batch", "site", props="rin"), data("LP", "dev", "batch"), data("PR", "dev", "batch", props="rp")])

        def oloc(I, a, k):
            log.append(("local energy", cur[0], a, k))
            return data("EL", "dev", "batch")
        psi = StubObj("psi", {"get_parameters": PyFn(getp, "get_parameters"), "set_parameters": PyFn(setp, "set_parameters"), "gradients": PyFn(grads, "gradients")})
        ham = StubObj("ham", {"get_O_loc": PyFn(oloc, "get_O_loc")})
        smp = StubObj("sampler", {"sample": PyFn(sample, "sample"), "__isa__": ()})
        eq = I.call(cls(ctx, name), [smp], {})
        upd = array("UPD", [Dim.of_const(2)], props="r")
        res = upd if name.endswith("MinSR") else Tup([upd, Tensor((), sym("RES", props="r")), Tensor((), sym("CUT", props="r"))])
        I.overrides[name + ".solve"] = PyFn(lambda I, a, k: res, "solve")
        I.overrides[name + "._get_tdvp_error"] = PyFn(lambda I, a, k: Tensor((), sym("ERR", props="r")), "_get_tdvp_error")
        tt = Tensor((), sym("t", props="r"))
        kw = dict(psi=psi, hamiltonian=ham)
        if nsamp:
            kw["numSamples"] = num(77)
        if extra is not None and name.endswith("MinSR"):
            kw["intStep"] = num(extra)
        before = cur[0]
        r = I.call(eq, [P1, tt], kw)
        ctx.done(I)
        rs = [compare(I, r, upd, label="returned update")]
        seen = {x[0] for x in log}
        if seen != {"sample", "local energy", "gradients"}:
            return dunno("evaluations %s" % sorted(seen))
        for what, p, a, k in log:
            rs.append(compare(I, p, P1, label="parameters of the state during the %s" % what))
            if what == "sample":
                ns = k.get("numSamples", a[1] if len(a) > 1 else NONE)
                rs.append(compare(I, ns, num(77) if nsamp else None, label="number of samples handed to the sampler"))
            if what == "local energy":
                rs.append(compare(I, a[0], data("SC", "dev", "batch", "site", props="rin"), label="configurations of the local energy"))
                if a[1] is not psi:
                    rs.append(flaw(I, "local energy of another state"))
                if len(a) > 2:
                    rs.append(compare(I, a[2], data("LP", "dev", "batch"), label="amplitudes of the local energy"))
                rs.append(compare(I, a[3] if len(a) > 3 else k.get("t", NONE), tt, label="time handed to the local energy"))
            if what == "gradients":
                rs.append(compare(I, a[0], data("SC", "dev", "batch", "site", props="rin"), label="configurations of the gradients"))
        rs.append(compare(I, cur[0], before, label="parameters of the state after the call"))
        return conj(rs)
    for nm in ("jVMC.util.tdvp.TDVP", "jVMC.util.minsr.MinSR"):
        s = nm.split(".")[-1]
        for e, n in ((None, False), (0, True)):
            ctx.ob("%s/%s" % (s, "plain" if not n else "numSamples"), "parameter-scope", where(ctx, nm + ".__call__"), lambda nm=nm, e=e, n=n: solver(nm, e, n))
    ctx.floor("obligations", len(ctx.obs), 10)

from .samp import *

TITLE = "Markov chains sample the stated distribution and weights compensate for it"
MU = Tensor((), sym("mu", props="rp"))
LP = Tensor((), sym("lpf", props="rp"))
ARG = Tensor((), sym("UARG", props="r"))


def net_eval(I, s, real=False, p=None):
    return fn("NET", p if p is not None else sym("c.value", props="r"), I.node(s), props="r" if real else "")


def scalar_param(I, tree):
    t = tree
    for q in ("params", "c", "value"):
        t = I.content(t)[("s", q)]
    return I.num_of(t).body


def chain(ctx, chains, therm, sweep, per, sites=2, real=False, init=True, mu=MU, prop=None):
    """runs the sampler over arbitrary amplitudes; returns all that is needed to state the expected chain"""
    I = ctx.interp()
    net = make_net(I, True, False, leaves=TINY)
    seen = []

    def apply(I, a, k):
        if len(a) != 2 or k:
            raise Unknown("network call")
        return Tensor((), net_eval(I, a[1], real, scalar_param(I, a[0])))
    net.attrs["apply"] = PyFn(apply, "apply")
    psi = I.call(cls(ctx, N), [net], {})

    def proposer(I, a, k):
        if len(a) != 3 or k:
            raise Unknown("proposal call")
        s = I.num_of(a[1]).opened()
        r = Tensor(s.axes, fn("PROP", *[v.as_poly() for ax in s.axes for v in ax], I.node(a[0]), props="rin"))
        seen.append((I.num_of(a[0]), I.num_of(a[1]), r, a[2], I.lanes))
        return r
    args = dict(updateProposer=prop or PyFn(proposer, "proposer"), numChains=num(chains), numSamples=num(4), thermalizationSweeps=num(therm),
                sweepSteps=num(sweep), mu=mu, logProbFactor=LP, updateProposerArg=ARG)
    s0 = None
    if init:
        s0 = array("S0", [Dim.of_const(sites)], props="rin")
        args["initState"] = s0
    smp = I.call(cls(ctx, SM + "MCSampler"), [psi, Tup([num(sites)]), KEY], args)
    I.overrides["jVMC.mpi_wrapper.distribute_sampling"] = PyFn(lambda I, a, k: Tup([num(per), Tensor((), sym("GN", props="ip"))]), "distribute_sampling")
    return I, psi, smp, seen, s0


def accept_draws(I, n0, nupd, chains):
    """the uniform number that decides update k of chain c, identified by the key it is drawn from"""
    ev = [e for e in I.events[n0:] if e["kind"] == "rng" and e["op"] in ("bernoulli", "uniform")]
    if len(ev) == nupd:
        return lambda k, c: fn("uniform", ev[k]["key"].body, *([const(c)] if chains > 1 else []), props="rn"), ev
    if len(ev) == nupd * chains:
        return lambda k, c: fn("uniform", ev[k * chains + c]["key"].body, props="rn"), ev
    return None, ev


def run(ctx):
    def markov(chains, therm, sweep, per, real=False, calls=1):
        I, psi, smp, seen, s0 = chain(ctx, chains, therm, sweep, per, real=real)
        out = []
        par = None
        st = [s0 for c in range(chains)]
        for call in range(calls):
            if call:
                # other parameters: the next call has to judge all states by the new amplitudes
                I.call(I.getattr(psi, "set_parameters"), [array("P%d" % call, [Dim.of_const(2)], props="r")], {})
                par = scalar_param(I, I.getattr(psi, "parameters"))
                if par == sym("c.value", props="r"):
                    return dunno("parameters not set")
            n0 = len(I.events)
            del seen[:]
            r = I.call(I.getattr(smp, "sample"), [], {})
            if call:
                if len(seen) < chains:
                    return dunno("proposals not seen")
                st = [seen[c][1] for c in range(chains)]
            conf, logp, w = [I.num_of(x) for x in I.unpack(r, 3)]
            ctx.done(I)
            nupd = therm * sweep + per * sweep
            if I.tainted:
                return dunno("; ".join(I.notes[-2:]))
            if conf.axes is None or conf.rank != 3 or conf.unk:
                return dunno("configurations %s" % short(conf))
            if len(seen) != nupd * chains:
                if any(v.dim.const is None for _, _, _, _, ls in seen for v in ls[1:]):
                    return dunno("%d proposals seen" % len(seen))
                return flaw(I, "%d proposals per device for %d updates of %d chains" % (len(seen), nupd, chains))
            U, ev = accept_draws(I, n0, nupd, chains)
            if U is None:
                return dunno("%d acceptance draws for %d updates of %d chains" % (len(ev), nupd, chains))
            snaps = []
            for k in range(nupd):
                for c in range(chains):
                    key, old, new, arg, lanes = seen[k * chains + c]
                    r = compare(I, old, st[c], label="state handed to the proposal in update %d of chain %d" % (k, c))
                    if r.status != HOLDS:
                        return r
                    r = compare(I, arg, ARG, label="argument of the proposal")
                    if r.status != HOLDS:
                        return r
                    o, nw = old.opened(), new
                    a = net_eval(I, nw, real, par)
                    b = net_eval(I, old, real, par)
                    acc = ind_lt0(U(k, c) - fn("exp", MU.body * (re_(a) - re_(b))))
                    n_ = align(new, o)
                    st[c] = Tensor(o.axes, ite(acc, n_, o.body))
                if k >= therm * sweep and (k - therm * sweep) % sweep == sweep - 1:
                    snaps.append(list(st))
            d = [v for v in conf.opened().axes[0]]
            got = conf.opened()
            size = compare(I, Tensor((), conf.axis_size(1)), num(per * chains), label="samples per device")
            if size.status != HOLDS:
                return size
            # the key terms refer to the device index by the lane variable of the map
            lane = [v for v in seen[0][4]]
            row = lambda n: conf.index_axis(1, const(n)).index_axis(0, lane[0].as_poly() if lane else ZERO)
            orders = [[snaps[t][c] for t in range(per) for c in range(chains)], [snaps[t][c] for c in range(chains) for t in range(per)]]
            res = []
            for want in orders[:1 if per == 1 or chains == 1 else 2]:
                res.append(conj([compare(I, row(n), x, label="sample %d of %d chains with %d+%d updates" % (n, chains, therm * sweep, per * sweep), seeds=40) for n, x in enumerate(want)]))
                if res[-1].status == HOLDS:
                    break
            out.append(res[-1] if res[-1].status == HOLDS else res[0])
            if out[-1].status != HOLDS:
                return out[-1]
            for n in range(per * chains):
                out.append(compare(I, logp.index_axis(1, const(n)).index_axis(0, lane[0].as_poly() if lane else ZERO),
                                   Tensor((), net_eval(I, row(n), real, par)), label="amplitude of sample %d" % n))
        return conj(out)

    def align(t, o):
        b = t
        for ax in o.axes:
            b = b.index_axis(0, ax[0].as_poly() if ax else ZERO)
        return b.body

    def re_(p):
        return (p + p.conjugate()).scale(CQ(F(1, 2)))

    ctx.ob("chain/one-update", "transition-kernel", where(ctx, SM + "MCSampler._sweep"), lambda: markov(1, 0, 1, 1))
    ctx.ob("chain/two-chains", "transition-kernel", where(ctx, SM + "MCSampler._sweep"), lambda: markov(2, 0, 1, 1))
    ctx.ob("chain/thermalised", "transition-kernel", where(ctx, SM + "MCSampler._get_samples"), lambda: markov(1, 1, 1, 1, real=True))
    ctx.ob("chain/two-samples", "transition-kernel", where(ctx, SM + "MCSampler._get_samples"), lambda: markov(2, 0, 1, 2, real=True))
    ctx.ob("chain/two-steps", "transition-kernel", where(ctx, SM + "MCSampler._get_samples"), lambda: markov(1, 0, 2, 1, real=True))
    ctx.ob("chain/second-call", "transition-kernel", where(ctx, SM + "MCSampler.sample"), lambda: markov(1, 0, 1, 1, real=True, calls=2))

    def counts(chains, therm, sweep, per):
        """every sweep consists of the requested number of updates, also during thermalisation"""
        n = []

        def same(I, a, k):
            n.append(I.lanes)
            return a[1]
        I, psi, smp, seen, s0 = chain(ctx, chains, therm, sweep, per, prop=PyFn(same, "proposer"))
        I.call(I.getattr(smp, "sample"), [], {})
        ctx.done(I)
        if I.tainted or any(v.dim.const is not None for l in n for v in l):
            return dunno("proposals not followed")
        want = (therm + per) * sweep * chains
        return ok("%d proposals" % want) if len(n) == want else flaw(I, "%d proposals for %d+%d sweeps of %d updates of %d chains" % (len(n), therm, per, sweep, chains))
    for a in ((1, 2, 3, 2), (2, 3, 2, 1), (2, 0, 1, 3)):
        ctx.ob("updates/%d-%d-%d-%d" % a, "transition-kernel", where(ctx, SM + "MCSampler._get_samples"), lambda a=a: counts(*a))

    def weights(chains):
        I, psi, smp, seen, s0 = chain(ctx, chains, 0, 1, 1)
        r = I.call(I.getattr(smp, "sample"), [], {})
        conf, logp, w = [I.num_of(x) for x in I.unpack(r, 3)]
        ctx.done(I)
        d, b = V_("dev"), var(Dim.of_const(chains))
        l = logp.index_axis(1, b.as_poly()).index_axis(0, d.as_poly()).body
        e = fn("exp", (ONE / LP.body) * re_(l) - MU.body * re_(l))
        tot = over_rank(S(e, b, d))
        return compare(I, w, T([d, b], e / tot), label="weights of %d chains" % chains, sizes=dict(rank=2, dev=2))
    ctx.ob("weights/1", "reweighting", where(ctx, SM + "MCSampler.sample"), lambda: weights(1))
    ctx.ob("weights/2", "reweighting", where(ctx, SM + "MCSampler.sample"), lambda: weights(2))

    def ratio(chains, therm, per):
        I, psi, smp, seen, s0 = chain(ctx, chains, therm, 1, per)
        n0 = len(I.events)
        I.call(I.getattr(smp, "sample"), [], {})
        nupd = therm + per
        U, ev = accept_draws(I, n0, nupd, chains)
        if U is None or len(seen) != nupd * chains:
            return dunno("draws not followed")
        r = I.num_of(I.call(I.getattr(smp, "acceptance_ratio"), [], {}))
        ctx.done(I)
        lane = seen[0][4]
        acc = ZERO
        for k in range(nupd):
            for c in range(chains):
                key, old, new, arg, lanes = seen[k * chains + c]
                acc = acc + ind_lt0(U(k, c) - fn("exp", MU.body * (re_(net_eval(I, new)) - re_(net_eval(I, old)))))
        d = V_("dev")
        acc = acc.subst({lane[0].name: d.as_poly()}) if lane else acc
        tot = over_rank(S(acc, d))
        n = over_rank(S(const(nupd * chains), d))
        want = tot / n
        if r.axes is not None and r.rank == 1:
            r = r.index_axis(0, ZERO)
        return compare(I, r, Tensor((), want), label="acceptance ratio", sizes=dict(rank=2, dev=2))
    ctx.ob("ratio/1", "transition-kernel", where(ctx, SM + "MCSampler.acceptance_ratio"), lambda: ratio(1, 0, 1))
    ctx.ob("ratio/2", "transition-kernel", where(ctx, SM + "MCSampler.acceptance_ratio"), lambda: ratio(2, 0, 1))
    def direct(orbit):
        I, psi, net = make_nqs(ctx, True, False, gen=True, leaves=TINY, init=False)
        made = []

        def draw(I, a, k):
            v, x = var(Dim.of_const(2)), V_("site")
            key = I.num_of(a[2])
            t = Tensor([(v,), (x,)], fn("GEN", v.as_poly(), x.as_poly(), scalar_param(I, a[0]), key.body, props="rin"))
            made.append((a, t, I.lanes))
            return t

        def apply(I, a, k):
            if k.get("method") is not None:
                return draw(I, a, k)
            return Tensor((), net_eval(I, a[1], False, scalar_param(I, a[0])))
        net.attrs["apply"] = PyFn(apply, "apply")
        if orbit:
            net.attrs["__isa__"] = ("SymNet",)
            O = array("ORB", [Dim.of_const(3), Dim.named("site"), Dim.named("site")], props="r")
            net.attrs["orbit"] = StubObj("orbit", {"orbit": O})
        GN = sym("GN", props="ip")
        I.overrides["jVMC.mpi_wrapper.distribute_sampling"] = PyFn(lambda I, a, k: Tup([num(2), Tensor((), GN)]), "distribute_sampling")
        smp = I.call(cls(ctx, SM + "MCSampler"), [psi, Tup([Tensor((), Dim.named("site").size)]), KEY], {"numSamples": num(2)})
        n0 = len(I.events)
        r = I.call(I.getattr(smp, "sample"), [], {})
        conf, logp, w = [I.num_of(x) for x in I.unpack(r, 3)]
        ctx.done(I)
        if len(made) != 1 or I.tainted:
            return dunno("direct sampling not followed")
        d, n, x = V_("dev"), var(Dim.of_const(2)), V_("site")
        lane = made[0][2]
        g = made[0][1]
        gen = lambda x: at(g, n, x).subst({v.name: d.as_poly() for v in lane})
        if orbit:
            ch = [e for e in I.events[n0:] if e["kind"] == "rng" and e["op"] in ("choice", "randint")]
            if len(ch) != 1:
                return dunno("random group elements not followed")
            y = V_("site")
            f = [a for a in (fn("choice", ch[0]["key"].body, const(3), n.as_poly()), fn("randint", ch[0]["key"].body, ZERO, const(3), n.as_poly(), props="i"))
                 if (ch[0]["op"] == a.single_atom().name)][0].subst({v.name: d.as_poly() for v in ch[0]["lanes"]})
            want = fn("floordiv", S(fn_at(O, f, x, y) * (gen(y).scale(CQ(2)) - ONE), y) + ONE, const(2))
        else:
            want = gen(x)
        res = [compare(I, conf, T([d, n, x], want), label="directly sampled configurations", sizes=dict(site=2, dev=2), allow=("choice",))]
        row = conf.index_axis(1, n.as_poly()).index_axis(0, d.as_poly())
        res.append(compare(I, logp, T([d, n], net_eval(I, row)), label="amplitudes of directly sampled configurations", sizes=dict(site=2, dev=2)))
        res.append(compare(I, w, T([d, n], ONE / GN), label="weights of directly sampled configurations"))
        return conj(res)

    def fn_at(O, i, x, y):
        return O.index_axis(0, i).index_axis(0, x.as_poly()).index_axis(0, y.as_poly()).body
    ctx.ob("direct/plain", "reweighting", where(ctx, SM + "MCSampler._get_samples_gen"), lambda: direct(False))
    ctx.ob("direct/orbit", "reweighting", where(ctx, SM + "MCSampler._randomize_samples"), lambda: direct(True))
    ctx.floor("obligations", len(ctx.obs), 12)

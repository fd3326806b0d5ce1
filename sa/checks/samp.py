"""Monte-Carlo samplers over an arbitrary network and update proposal"""
from .nqs import *

SM = "jVMC.sampler."
TINY = [("w", "kernel", (1,)), ("c", "value", ())]


KEY = Tensor((), sym("KEY"), kind="key")


def make_sampler(ctx, gen=False, chains=2, samples=2, therm=1, sweep=1, sites=2, prop=None, nqs=None, **kw):
    real = True
    I, psi, net = nqs if nqs is not None else make_nqs(ctx, real, False, gen=gen, leaves=TINY, init=False)
    log = []

    def proposer(I, a, k):
        s = I.num_of(a[1])
        x = V_("site") if s.axes is None else None
        o = s.opened()
        r = Tensor(o.axes, fn("PROP", *[v.as_poly() for ax in o.axes for v in ax], I.node(a[0]), I.node(s), I.node(a[2]), props="rin"))
        log.append((a[0], s, r))
        return r
    args = dict(numChains=num(chains) if isinstance(chains, int) else chains, numSamples=num(samples) if isinstance(samples, int) else samples,
                thermalizationSweeps=num(therm), sweepSteps=num(sweep))
    if not gen:
        args["updateProposer"] = prop or PyFn(proposer, "proposer")
    args.update(kw)
    smp = I.call(cls(ctx, SM + "MCSampler"), [psi, Tup([num(sites)]), KEY], args)
    return I, psi, smp, log

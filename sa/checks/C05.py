from .samp import *
from .. import evalnf
import math

TITLE = "Work distribution yields the reported number of samples"
M = "jVMC.mpi_wrapper."


def grid(ranks=(1, 2, 3, 4), devs=(1, 2, 3)):
    for c in ranks:
        for d in devs:
            yield dict(rank=c, dev=d), c


def val(p, sizes, values, rank):
    return evalnf.value(p, sizes=sizes, values=values, rank=rank).real


def run(ctx):
    def states():
        """without devices: the processes own consecutive, disjoint ranges that cover 0..N-1"""
        I = ctx.interp()
        Nn = Tensor((), sym("N", props="in"))
        r = I.call(fnv(ctx, I, M + "distribute_sampling"), [Nn], {})
        mine, tot = [I.num_of(x).body for x in I.unpack(r, 2)]
        first = I.num_of(I.call(fnv(ctx, I, M + "first_sample_id"), [], {})).body
        ctx.done(I)
        if mine.unk or tot.unk or first.unk or I.tainted:
            return dunno("terms %s %s %s" % (mine, tot, first))
        n = 0
        for sizes, c in grid(devs=(1,)):
            for k in range(0, 14):
                v = {"N": k}
                pos = 0
                for r in range(c):
                    m, f, t = val(mine, sizes, v, r), val(first, sizes, v, r), val(tot, sizes, v, r)
                    n += 1
                    if t != k:
                        return flaw(I, "%d states on %d processes: total %g reported" % (k, c, t))
                    if f != pos:
                        return flaw(I, "%d states on %d processes: process %d starts at %g, the processes before it own %g" % (k, c, r, f, pos))
                    if m < 0:
                        return flaw(I, "negative number of states")
                    pos += m
                if pos != k:
                    return flaw(I, "%d states on %d processes: the processes own %g together" % (k, c, pos))
        return ok("%d interpretations" % n)
    ctx.ob("distribute/states", "distribution-term", where(ctx, M + "distribute_sampling"), states)

    def samples():
        I = ctx.interp()
        Nn, D, C = [Tensor((), sym(x, props="ip" if x != "N" else "in")) for x in "NDC"]
        r = I.call(fnv(ctx, I, M + "distribute_sampling"), [Nn], {"localDevices": D, "numChainsPerDevice": C})
        mine, tot = [I.num_of(x).body for x in I.unpack(r, 2)]
        ctx.done(I)
        if mine.unk or tot.unk or I.tainted:
            return dunno("terms %s %s" % (mine, tot))
        n = 0
        for sizes, c in grid(devs=(1,)):
            for k in range(0, 12):
                for d in (1, 2, 3):
                    for ch in (1, 2, 3):
                        v = {"N": k, "D": d, "C": ch}
                        s = 0
                        for r in range(c):
                            n += 1
                            s += val(mine, sizes, v, r) * d * ch
                        for r in range(c):
                            t = val(tot, sizes, v, r)
                            if t != s:
                                return flaw(I, "%d samples, %d processes, %d devices, %d chains: total %g reported, %g generated" % (k, c, d, ch, t, s))
                        if s < k:
                            return flaw(I, "%d samples, %d processes, %d devices, %d chains: only %g generated" % (k, c, d, ch, s))
                        # one more sample per chain and process than necessary is never generated
                        if s - k >= c * d * ch:
                            return flaw(I, "%d samples, %d processes, %d devices, %d chains: %g generated although fewer suffice" % (k, c, d, ch, s))
        return ok("%d interpretations" % n)
    ctx.ob("distribute/samples", "distribution-term", where(ctx, M + "distribute_sampling"), samples)

    def sampler(gen, chains, mult, ask, default):
        """samples delivered by all processes together = reported number, at least the request, multiples honoured"""
        Nn = Tensor((), sym("N", props="ip"))
        I, psi, smp, log = make_sampler(ctx, gen=gen, chains=chains, samples=Nn if default else 5, therm=0, sweep=0,
                                        prop=PyFn(lambda I, a, k: a[1], "proposer"))
        if default == "set":
            Nn = Tensor((), sym("N2", props="ip"))
            I.call(I.getattr(smp, "set_number_of_samples"), [Nn], {})
        kw = {} if default else {"numSamples": Nn}
        if mult != 1:
            kw["multipleOf"] = num(mult)
        r = I.call(I.getattr(smp, "sample"), [], kw)
        conf, logp, w = I.unpack(r, 3)
        glob = I.num_of(I.call(I.getattr(smp, "get_last_number_of_samples"), [], {})).body
        ctx.done(I)
        conf, logp, w = [I.num_of(x) for x in (conf, logp, w)]
        rs = []
        for t in (conf, logp, w):
            if t.axes is None or t.rank < 2:
                return dunno("sampler result %s" % short(t))
        per = conf.axis_size(1)
        if per.unk or glob.unk:
            return dunno("number of samples %s, %s" % (per, glob))
        name = "%s sampling, %s chains, multiple of %d" % ("direct" if gen else "Markov chain", chains, mult)
        n = 0
        unit = mult if gen else math.lcm(chains, mult)
        for sizes, c in grid():
            for k in list(range(1, 10)) + [23, 61]:
                v = {"N": k, "N2": k}
                s = 0
                for r in range(c):
                    p = val(per, sizes, v, r)
                    n += 1
                    if p % mult:
                        return flaw(I, "%s: %g samples per device for %d samples on %d processes with %d devices" % (name, p, k, c, sizes["dev"]))
                    if val(logp.axis_size(1), sizes, v, r) != p or val(w.axis_size(1), sizes, v, r) != p:
                        return flaw(I, "%s: configurations, amplitudes and weights have different length" % name)
                    s += p * sizes["dev"]
                for r in range(c):
                    g = val(glob, sizes, v, r)
                    if g != s:
                        return flaw(I, "%s: %d requested from %d processes with %d devices, %g reported, %g generated" % (name, k, c, sizes["dev"], g, s))
                if s - k >= c * sizes["dev"] * unit:
                    return flaw(I, "%s: %d requested from %d processes with %d devices, %g generated although fewer suffice" % (name, k, c, sizes["dev"], s))
                if s < k:
                    return flaw(I, "%s: %d requested from %d processes with %d devices, %g generated" % (name, k, c, sizes["dev"], s))
        rs = [ok("%d interpretations" % n)]
        return conj(rs)
    for gen in (True, False):
        for chains, mult in ((1, 1), (2, 1), (1, 3), (3, 2), (2, 4)):
            ctx.ob("sampler/%s/%d-%d" % ("direct" if gen else "mcmc", chains, mult), "distribution-term", where(ctx, SM + "MCSampler.sample"),
                   lambda g=gen, c=chains, m=mult: sampler(g, c, m, None, None))
        ctx.ob("sampler/%s/default" % ("direct" if gen else "mcmc"), "distribution-term", where(ctx, SM + "MCSampler.set_number_of_samples"),
               lambda g=gen: conj([sampler(g, 2, 1, None, "init"), sampler(g, 2, 1, None, "set")]))
    ctx.floor("obligations", len(ctx.obs), 14)

from .samp import *
from .. import evalnf
import itertools

TITLE = "Every random draw uses a key of its own"
STEP = {"split", "fold_in"}


def consumed(ctx, I, sizes=dict(rank=3, dev=2), start=0):
    """all keys that are consumed, over all processes, devices and mapped lanes; returns (problem, count)"""
    seen = {}
    n = 0
    for e in I.events[start:]:
        if e["kind"] != "rng":
            continue
        k = e["key"]
        if k.axes or k.body.unk:
            return dunno("key %s at %s" % (short(k), e["where"])), n
        lanes = [v for v in e["lanes"] if v.name != RK.name] + list(e.get("loopvars", ()))
        ext = []
        for v in lanes:
            d = v.dim
            ext.append(range(d.const if d.const is not None else sizes.get(d.name, 2)))
        if e.get("loopvars") and any(v.dim.const is None for v in e["loopvars"]):
            return dunno("keys of a loop of unknown length at %s" % e["where"]), n
        for r in range(sizes["rank"]):
            for pt in itertools.product(*ext):
                env = {v.name: x for v, x in zip(lanes, pt)}
                try:
                    z = evalnf.value(k.body, env=env, sizes=sizes, rank=r)
                except Exception as ex:
                    return dunno("key %s at %s (%s)" % (short(k), e["where"], ex)), n
                n += 1
                z = (round(z.real, 6), round(z.imag, 6))
                if z in seen and (e["op"] not in STEP or seen[z][0]["op"] not in STEP):
                    o, orank, opt = seen[z]
                    if (e["guard"] * o["guard"]).is_zero():
                        continue
                    if e["guard"].int_value() != 1 or o["guard"].int_value() != 1:
                        return dunno("keys at %s and %s under conditions" % (o["where"], e["where"])), n
                    what = "another process" if orank != r else ("another device or chain" if opt != pt and o is e else "before")
                    return flaw(I, "%s at %s consumes a key that was consumed by %s at %s (%s): %s" % (e["op"], e["where"], o["op"], o["where"], what, short(k))), n
                seen[z] = (e, r, pt)
    return None, n


def root_of(p):
    """does the key term descend from a given symbol only"""
    return {x for x in evalnf.sym_names(p)}


def run(ctx):
    def stub(I, a, k):
        I.event("rng", op="proposal", key=I.num_of(a[0]))
        return a[1]

    def fixed(n):
        return PyFn(lambda I, a, k: Tup([num(n), Tensor((), sym("GN", props="ip"))]), "distribute_sampling")

    def mcmc(chains, key=None):
        kw = {}
        I, psi, net = make_nqs(ctx, True, False, leaves=TINY, init=False)
        args = dict(numChains=num(chains), numSamples=num(2), thermalizationSweeps=num(1), sweepSteps=num(2), updateProposer=PyFn(stub, "proposer"))
        I.overrides["jVMC.mpi_wrapper.distribute_sampling"] = fixed(2)
        smp = I.call(cls(ctx, SM + "MCSampler"), [psi, Tup([num(2)]), key if key is not None else KEY], args)
        n0 = len(I.events)
        for i in range(2):
            I.call(I.getattr(smp, "sample"), [], {})
        I.call(I.getattr(smp, "set_random_key"), [Tensor((), sym("KEY2"), kind="key")], {})
        for i in range(2):
            I.call(I.getattr(smp, "sample"), [], {})
        ctx.done(I)
        ndraw = sum(1 for e in I.events if e["kind"] == "rng" and e["op"] not in STEP)
        r, n = consumed(ctx, I)
        if r is not None:
            return r
        if ndraw < 4 * (2 + 2 * 2) * (1 + 1):
            return flaw(I, "only %d random decisions for %d updates" % (ndraw, 4 * 6)) if not I.tainted else dunno("draws not followed")
        return ok("%d events, %d keys over processes, devices and chains" % (len([e for e in I.events if e["kind"] == "rng"]), n))
    for c in (1, 2, 3):
        ctx.ob("mcmc/%d" % c, "key-linearity", where(ctx, SM + "MCSampler._sweep"), lambda c=c: mcmc(c))
    ctx.ob("mcmc/seed", "key-linearity", where(ctx, SM + "MCSampler.__init__"), lambda: mcmc(1, num(7)))

    def direct(orbit):
        I = ctx.interp()
        nq = make_nqs(ctx, True, False, gen=True, leaves=TINY, init=False)
        I, psi, net = nq
        net.attrs["eval_real"] = None

        def sample(I, a, k):
            key = a[2] if len(a) > 2 else k.get("key")
            I.event("rng", op="net.sample", key=I.num_of(key))
            v, x = var(Dim.of_const(2)), V_("site")
            return Tensor([(v,), (x,)], fn("GEN", v.as_poly(), x.as_poly(), I.node(key), props="rin"))
        net.attrs["sample"] = PyFn(sample, "sample")
        base = net.attrs["apply"].f if hasattr(net.attrs["apply"], "f") else None
        old = net.attrs["apply"]

        def apply(I, a, k):
            if k.get("method") is not None and getattr(k["method"], "name", "") == "sample":
                return sample(I, a, k)
            return I.call(old, a, k)
        net.attrs["apply"] = PyFn(apply, "apply")
        if orbit:
            net.attrs["__isa__"] = ("SymNet",)
            o = StubObj("orbit", {"orbit": array("ORB", [Dim.of_const(2), Dim.named("site"), Dim.named("site")], props="r")})
            net.attrs["orbit"] = o
        I.overrides["jVMC.mpi_wrapper.distribute_sampling"] = fixed(2)
        smp = I.call(cls(ctx, SM + "MCSampler"), [psi, Tup([Tensor((), Dim.named("site").size)]), KEY], {"numSamples": num(2)})
        for i in range(2):
            I.call(I.getattr(smp, "sample"), [], {})
        I.call(I.getattr(smp, "set_random_key"), [Tensor((), sym("KEY2"), kind="key")], {})
        I.call(I.getattr(smp, "sample"), [], {})
        ctx.done(I)
        r, n = consumed(ctx, I)
        if r is not None:
            return r
        ops = [e["op"] for e in I.events if e["kind"] == "rng"]
        if ops.count("net.sample") < 3:
            return dunno("direct sampling calls not followed")
        return ok("%d events, %d keys over processes and devices" % (len(ops), n))
    ctx.ob("direct/plain", "key-linearity", where(ctx, SM + "MCSampler._get_samples_gen"), lambda: direct(False))
    ctx.ob("direct/orbit", "key-linearity", where(ctx, SM + "MCSampler._randomize_samples"), lambda: direct(True))

    def proposer(name):
        I = ctx.interp()
        s = Tensor([(v,) for v in (var(Dim.of_const(2)), var(Dim.of_const(2)))], ZERO)
        s = array("s", [Dim.of_const(2), Dim.of_const(2)], props="rin")
        I.call(fnv(ctx, I, SM + name), [KEY, s, NONE], {})
        ctx.done(I)
        ev = [e for e in I.events if e["kind"] == "rng"]
        if not ev:
            return dunno("no random draw seen") if I.tainted else bad("no random draw")
        for e in ev:
            if evalnf.sym_names(e["key"].body) != {"KEY"}:
                return flaw(I, "%s at %s uses a key that is not derived from the key it is given: %s" % (e["op"], e["where"], short(e["key"])))
        r, n = consumed(ctx, I, sizes=dict(rank=1, dev=1))
        return r or ok("%d keys" % n)
    for nm in ("propose_spin_flip", "propose_POVM_outcome", "propose_spin_flip_Z2", "propose_spin_flip_zeroMag"):
        ctx.ob("proposal/" + nm, "key-linearity", where(ctx, SM + nm), lambda nm=nm: proposer(nm))

    def init():
        """all processes initialise the network from the same key, which depends on the seed"""
        I = ctx.interp()
        seen = []
        net = make_net(I, True, False, leaves=TINY)
        base = net.attrs["init"]

        def init(I, a, k):
            seen.append(a[0] if a else k.get("rngs"))
            return I.call(base, a, {})
        net.attrs["init"] = PyFn(init, "init")
        psi = I.call(cls(ctx, N), [net], {"seed": Tensor((), sym("SEED", props="i"))})
        I.call(psi, [data("s0", "dev", "batch", "site", props="rin")], {})
        ctx.done(I)
        if len(seen) != 1:
            return dunno("%d initialisations" % len(seen))
        k = I.num_of(seen[0]).body
        names = k.free_vars() if hasattr(k, "free_vars") else set()
        zs = {repr(evalnf.value(k, sizes=dict(rank=3, dev=2), rank=r, seed=1)) for r in range(3)}
        if len(zs) != 1:
            return flaw(I, "network initialisation differs between processes: key %s" % short(seen[0]))
        if "SEED" not in evalnf.sym_names(k):
            return flaw(I, "network initialisation does not use the seed: key %s" % short(seen[0]))
        return ok("key %s" % short(seen[0]))
    ctx.ob("init/replicated", "key-linearity", where(ctx, N + ".init_net"), init)
    ctx.floor("obligations", len(ctx.obs), 11)

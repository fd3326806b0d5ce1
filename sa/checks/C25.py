from .common import *

TITLE = "Measurements report mean, variance and standard error of the sampled observable"
U = "jVMC.util.util."
P = "jVMC.operator.povm."


def mean_of(x, w):
    d, b = V_("dev"), V_("batch")
    return over_rank(S(at(x, d, b) * at(w, d, b), d, b))


def stats(x, w, ns):
    """mean, variance and standard error of per-sample data x with weights w"""
    m = mean_of(x, w)
    d, b = V_("dev"), V_("batch")
    dev = at(x, d, b) - m
    v = over_rank(S(dev * dev.conjugate() * at(w, d, b), d, b))
    return m, v, v.pow(F(1, 2)) * ns.pow(F(-1, 2))


def entry(I, d, *keys):
    for k in keys:
        d = I.getitem(d, Const(k))
    return I.num_of(d)


def run(ctx):
    ns = sym("NS", props="rip")

    def sampler(log, tag=lambda: "", last=lambda: ns):
        def sample(I, a, k):
            log.append((list(a), dict(k)))
            t = tag()
            return Tup([data("s" + t, "dev", "batch", "site", props="rin"), data("lp" + t, "dev", "batch"), data("p" + t, "dev", "batch", props="rnN")])
        return StubObj("sampler", {"__isa__": (), "sample": PyFn(sample, "sample"),
                                   "get_last_number_of_samples": PyFn(lambda I, a, k: Tensor((), last()), "get_last_number_of_samples")})

    def operator(name, psi, real=False):
        def oloc(I, a, k):
            names = ["samples", "psi", "logPsiS"]
            a = list(a)
            if k and not a[3:]:
                for q in names[len(a):]:
                    if q in k:
                        a.append(k.pop(q))
            if len(a) < 3 or k or a[1] is not psi:
                raise Unknown("call of get_O_loc")
            s = I.num_of(a[0]).opened()
            lp = (data("lp", "dev", "batch") if isinstance(a[2], Const) else I.num_of(a[2])).opened()
            x, y = s.axes[0], s.axes[1]
            row = Tensor(s.axes[2:], s.body)
            i, j = [ax[0].as_poly() for ax in (x, y)]
            return Tensor([x, y], fn("OL" + name, I.node(row), lp.index_axis(0, i).index_axis(0, j).body, *[I.node(z) for z in a[3:]], props="r" if real else ""))
        return StubObj(name, {"__isa__": ("Operator",), "get_O_loc": PyFn(oloc, "get_O_loc")})

    def local(I, op, psi, s, lp, args):
        return I.num_of(I.call(I.getattr(op, "get_O_loc"), [s, psi, lp] + args, {}))

    def measure(kind, given):
        I = ctx.interp()
        psi = StubObj("psi", {"__isa__": ("NQS",)})
        A, B, C, D = [operator(q, psi, q == "C") for q in "ABCD"]
        t1, t2 = [Tensor((), sym("t%d" % q, props="r")) for q in (1, 2)]
        obs = {"list": {"one": [(A, []), (B, [])], "two": [(C, [])]},
               "single": {"one": [(C, [])], "two": [(A, [])]},
               "arguments": {"one": [(A, [t1]), (B, []), (C, [t1, t2])], "two": [(D, [t2])]}}[kind]

        def val(l):
            if kind == "single":
                return l[0][0]
            return I.list([o if not a else Tup([o] + a) for o, a in l])
        log = []
        smp = sampler(log)
        d = pdict(I, {k: val(v) for k, v in obs.items()})
        kw = {}
        if given:
            kw["numSamples"] = num(17)
        r = I.call(fnv(ctx, I, U + "measure"), [d, psi, smp], kw)
        rs = []
        for a, k in log:
            got = [x for x in list(a) + list(k.values())]
            if given and not any(I.num_of(x).body.int_value() == 17 for x in got if x is not NONE and I.num_of(x).rank == 0):
                rs.append(flaw(I, "the requested number of samples is not passed to the sampler"))
        s, lp, w = data("s", "dev", "batch", "site", props="rin"), data("lp", "dev", "batch"), data("p", "dev", "batch", props="rnN")
        for k, ops in obs.items():
            cols = [stats(local(I, o, psi, s, lp, a), w, ns) for o, a in ops]
            for j, q in enumerate(("mean", "variance", "MC_error")):
                got = entry(I, r, k, q)
                for i, c in enumerate(cols):
                    x = c[j] if j else L.real_part(c[0])
                    rs.append(compare(I, got.index_axis(0, const(i)), Tensor((), x), label="%s of %s[%d]" % (q, k, i), sizes=dict(site=2), allow=("OLA", "OLB", "OLC", "OLD")))
                if got.axes is None or got.rank != 1 or got.axis_size(0).int_value() != len(ops):
                    rs.append(flaw(I, "%s of %s has %s entries for %d operators" % (q, k, got.axes, len(ops))))
        ctx.done(I)
        return conj(rs)
    W = where(ctx, U + "measure")
    for kind in ("list", "single", "arguments"):
        for given in (False, True):
            ctx.ob("measure/%s/%s" % (kind, "given number" if given else "default number"), "statistics of the local estimators", W, lambda k=kind, g=given: measure(k, g))

    def povm(given, default):
        I = ctx.interp()
        log, seen = [], []
        smp = sampler(log)
        names = ("X", "N1")

        def val(nm, ops, conf, ax, key=None):
            row = Tensor(conf.axes[2:], conf.body)
            return Tensor(ax, fn("EV", K(str(key)), I.node(ops), I.node(row), props="r"))

        def evaluate(I, a, k):
            a = list(a) + [k[q] for q in ("operator", "states")[len(a):] if q in k]
            if len(a) != 2:
                raise Unknown("call of evaluate_observable")
            c = I.num_of(a[1]).opened()
            ax = c.axes[:2]
            return Tup([val("", a[0], c, ax), pdict(I, {q: val("", a[0], c, ax, q) for q in (0, 1, 2)})])
        oo = {q: array("ob" + q, [Dim.of_const(4)], props="r") for q in names}
        other = {"Z": array("obZ", [Dim.of_const(4)], props="r")}
        pv = StubObj("povm", {"__isa__": (), "observables": pdict(I, oo if default else other), "evaluate_observable": PyFn(evaluate, "evaluate_observable")})
        kw = {}
        t = ""
        if given:
            t = "G"
            kw = dict(sampleConfigs=data("sG", "dev", "batch", "site", props="rin"), probs=data("pG", "dev", "batch", props="rnN"))
        if not default:
            kw["observables"] = pdict(I, oo)
        r = I.call(fnv(ctx, I, P + "measure_povm"), [pv, smp], kw)
        s, w = data("s" + t, "dev", "batch", "site", props="rin").opened(), data("p" + t, "dev", "batch", props="rnN")
        rs = []
        keys = strkeys(I, r)
        expected = set()
        for nm in names:
            x = val("", oo[nm], s, s.axes[:2])
            c = stats(x, w, ns)
            expected.add(nm)
            for j, q in enumerate(("mean", "variance", "MC_error")):
                rs.append(compare(I, entry(I, r, nm, q), Tensor((), c[j]), label="%s of %s" % (q, nm), sizes=dict(site=2), allow=("EV",)))
            for key in (0, 1, 2):
                y = val("", oo[nm], s, s.axes[:2], key)
                v = stats(y, w, ns)
                cn = "%s_corr_L%d" % (nm, key)
                expected.add(cn)
                for j, q in enumerate(("mean", "variance", "MC_error")):
                    rs.append(compare(I, entry(I, r, cn, q), Tensor((), v[j] if j else v[0] - c[0] * c[0]), label="%s of the correlator %s" % (q, cn), sizes=dict(site=2), allow=("EV",)))
        if keys is not None and keys != expected:
            rs.append(flaw(I, "results are reported for %s, expected %s" % (sorted(map(str, keys)), sorted(expected))))
        ctx.done(I)
        return conj(rs)
    W2 = where(ctx, P + "measure_povm")
    for given in (False, True):
        for default in (False, True):
            ctx.ob("povm/%s/%s" % ("given configurations" if given else "sampled", "own observables" if default else "given observables"), "statistics of POVM observables", W2,
                   lambda g=given, d=default: povm(g, d))

    def record(steps):
        """observables written by the ground-state search belong to the parameters after the number of steps they are labelled with"""
        from fractions import Fraction as Fr
        n_ = Dim.named("n")
        cur = [0]
        written, version = [], []
        psi = StubObj("psi", {"__isa__": ("NQS",), "get_parameters": PyFn(lambda I, a, k: array("TH%d" % cur[0], [n_], props="r"), "get_parameters"),
                              "set_parameters": PyFn(lambda I, a, k: (cur.__setitem__(0, cur[0] + 1), NONE)[1], "set_parameters")})

        def meas(I, a, k):
            return pdict(I, {"one": pdict(I, {"mean": Tensor((), sym("RESULT%d" % cur[0]))})})

        def rhs(I, a, k):
            o = I.num_of(a[0]).opened()
            return Tensor(o.axes, fn("RHS", *[v.as_poly() for ax in o.axes for v in ax], I.node(o), props="r"))
        I = ctx.interp(overrides={U + "measure": PyFn(meas, "measure")})
        eq = StubObj("eq", {"diagonalShift": None, "set_diagonal_shift": None, "get_energy_variance": PyFn(lambda I, a, k: num(Fr(1, 2)), "v"),
                            "get_energy_mean": PyFn(lambda I, a, k: Tensor((), sym("EM", props="r")), "m")})
        eq.callf = rhs
        nop = PyFn(lambda I, a, k: NONE, "print")

        def write(I, a, k):
            written.append((I.num_of(a[0]).body.int_value(), dict(k)))
            return NONE
        outp = StubObj("outp", {"print": nop, "print_timings": nop, "start_timing": nop, "stop_timing": nop, "add_timing": nop, "write_observables": PyFn(write, "write_observables")})
        I.call(fnv(ctx, I, U + "ground_state_search"), [psi, StubObj("ham", {}), eq, StubObj("sampler", {"__isa__": ()})],
               dict(numSteps=num(steps), varianceTol=num(Fr(1, 10)), observables=pdict(I, {"one": I.list([])}), outp=outp))
        ctx.done(I)
        rs = []
        if [x for x, _ in written] != list(range(steps + 1)):
            return flaw(I, "observables are recorded for the step numbers %s in a search of %d steps" % ([x for x, _ in written], steps))
        for x, kw in written:
            if set(kw) != {"one"}:
                rs.append(flaw(I, "observables recorded at step %d: %s" % (x, sorted(kw))))
                continue
            rs.append(compare(I, entry(I, kw["one"], "mean"), Tensor((), sym("RESULT%d" % x)), label="observable recorded for step %d" % x))
        return conj(rs)
    ctx.ob("search records", "recorded observables", where(ctx, U + "ground_state_search"), lambda: conj([record(3), record(0)]))
    ctx.floor("obligations", len(ctx.obs), 11)

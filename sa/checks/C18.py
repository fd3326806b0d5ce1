from .common import *
from fractions import Fraction as Fr

TITLE = "TDVP and minSR solve the documented equations"
TD, MS, SO = "jVMC.util.tdvp.TDVP", "jVMC.util.minsr.MinSR", "jVMC.stats.SampledObs"
n_ = Dim.named("n")
X = sym("x")            # prefactor of the right-hand side
AB = ("eigval", "eigvec", "pinv", "WVAR")


def conj_(p):
    return p.conjugate()


def q_of(kind, p):
    return (p + p.conjugate()) * const(Fr(1, 2)) if kind == "real" else (p - p.conjugate()) * const(Fr(1, 2))


def elw(f, *ts):
    return L.elementwise(f, *ts)


def run(ctx):
    # ---- equation from sampled data, with the statistics code itself
    def equation(kind, shift, how):
        I = ctx.interp()
        w = data("p", "dev", "batch", props="rpN")
        G, E = data("G", "dev", "batch", n_), data("E", "dev", "batch")
        go, eo = I.call(cls(ctx, SO), [G, w], {}), I.call(cls(ctx, SO), [E, w], {})
        smp = StubObj("sampler", {"__isa__": ()})
        kw = dict(makeReal=Const(kind), rhsPrefactor=Tensor((), X))
        if shift and how != "set":
            kw["diagonalShift"] = num(shift)
        eq = I.call(cls(ctx, TD), [smp], kw)
        if shift and how == "set":
            I.call(I.getattr(eq, "set_diagonal_shift"), [num(shift)], {})
        if how == "sr":
            r = I.call(I.getattr(eq, "get_sr_equation"), [eo, go], {})
        elif how == "given":
            r = I.call(I.getattr(eq, "get_tdvp_equation"), [eo, go], {"rhsPrefactor": Tensor((), sym("x2"))})
        else:
            r = I.call(I.getattr(eq, "get_tdvp_equation"), [eo, go], {})
        x = {"sr": ONE, "given": sym("x2")}.get(how, X)
        got = [I.num_of(v) for v in I.unpack(r, 2)]
        ctx.done(I)

        def E_(f):
            d, b = V_("dev"), V_("batch")
            return over_rank(S(f(d, b) * at(w, d, b), d, b))
        k, l = V_(n_), V_(n_)
        Eb, Gk, Gl = E_(lambda d, b: at(E, d, b)), E_(lambda d, b: at(G, d, b, k)), E_(lambda d, b: at(G, d, b, l))
        F = q_of(kind, -x * E_(lambda d, b: conj_(at(G, d, b, k) - Gk) * (at(E, d, b) - Eb)))
        M = q_of(kind, E_(lambda d, b: conj_(at(G, d, b, k) - Gk) * (at(G, d, b, l) - Gl)))
        if shift:
            M = M * (ONE + const(shift) * ind_eq0(k.as_poly() - l.as_poly()))
        rs = [compare(I, got[0], T([k, l], M), label="matrix of the equation"), compare(I, got[1], T([k], F), label="right-hand side of the equation")]
        return conj(rs)
    W = where(ctx, TD + ".get_tdvp_equation")
    for kind in ("real", "imag"):
        for shift, how in ((0, "own"), (Fr(1, 10), "own"), (Fr(3), "set"), (0, "sr"), (0, "given")):
            ctx.ob("equation/%s/%s%s" % (kind, how, "/shift" if shift else ""), "TDVP equation", W, lambda a=(kind, shift, how): equation(*a))

    # ---- abstract observables: covariances are symbols
    class Obs:
        def __init__(self, env):
            self.env = env

        def make(self, what, tag=""):
            """what: 'E' local energies or 'G' gradients; tag: subset"""
            c = Dim.of_const(1)
            wt = data("w" + tag, "dev", "batch", props="rpN")
            CS, CF = array("CS" + tag, [n_, n_]), array("CF" + tag, [n_, c])
            ME, VE = array("ME" + tag, [c]), array("VE" + tag, [c], props="rp")
            CD = data("CD" + tag, "dev", "batch", n_, c)
            o = StubObj("obs" + what + tag, {})

            def covar(I, a, k):
                other = a[0] if a else k.get("other", o)
                other = o if other is NONE else other
                if not isinstance(other, StubObj) or getattr(other, "tag", None) != tag:
                    raise Unknown("covariance of different sets")
                if what == "G":
                    return CS if other.what == "G" else CF
                if other.what == "E":
                    return Tensor([()], at(VE, 0))
                k_ = V_(n_)
                return Tensor([(), (k_,)], conj_(at(CF, k_, 0)))

            def wvar(t):
                """weighted variance of data over all samples, component by component"""
                o_ = t.opened()
                if o_.rank < 3:
                    raise Unknown("data of rank %d" % o_.rank)
                vs = [v.as_poly() for ax in o_.axes[2:] for v in ax]
                t1 = Tensor(o_.axes[:2], o_.body)
                return Tensor(o_.axes[2:], fn("WVAR" + tag, t1, props="rn"))

            def data_obs(t):
                r = StubObj("data" + tag, {})

                def transform(I, a, k):
                    f = a[0] if a else k.get("nonLinearFun")
                    lin = a[1] if len(a) > 1 else k.get("linearFun")
                    x = t
                    if f is not None and f is not NONE:
                        x = I.num_of(I.call(f, [x], {}))
                    if lin is not None and lin is not NONE:
                        x = I.num_of(I.call(Lib("np.matmul"), [lin, x], {}))
                    return data_obs(x)
                r.attrs["transform"] = PyFn(transform, "transform")
                r.attrs["var"] = PyFn(lambda I, a, k: wvar(t), "var")
                return r

            def covar_data(I, a, k):
                other = a[0] if a else k.get("other", o)
                if what != "G" or getattr(other, "what", None) != "E" or other.tag != tag:
                    raise Unknown("covariance data")
                return data_obs(CD)

            def subset(I, a, k):
                v = [a[i] if len(a) > i else k.get(q, NONE) for i, q in enumerate(("start", "end", "step"))]
                v = [None if x is NONE else I.num_of(x).body.int_value() for x in v]
                return self.make(what, tag + "s%s" % v)
            o.attrs.update({"covar": PyFn(covar, "covar"), "covar_data": PyFn(covar_data, "covar_data"), "subset": PyFn(subset, "subset")})
            if what == "E":
                o.attrs["mean"] = PyFn(lambda I, a, k: Tensor([()], at(ME, 0)), "mean")
                o.attrs["var"] = PyFn(lambda I, a, k: Tensor([()], at(VE, 0)), "var")
            o.what, o.tag = what, tag
            return o

    NS = Tensor((), sym("NS", props="ip"))

    class Spec:
        """solution of the regularised equation for the covariances with the given tag"""

        def __init__(self, I, kind, tag="", shift=0, exact=False, tol=None, cutoff=Fr(9, 1000), snrtol=Fr(2), x=X):
            k, l = V_(n_), V_(n_)
            c = Dim.of_const(1)
            CS, CF = array("CS" + tag, [n_, n_]), array("CF" + tag, [n_, c])
            wt = data("w" + tag, "dev", "batch", props="rpN")
            CD = data("CD" + tag, "dev", "batch", n_, c)
            self.S0 = lambda i, j: at(CS, i, j)
            self.F0 = lambda i: -x * at(CF, i, 0)
            M = q_of(kind, at(CS, k, l))
            if shift:
                M = M * (ONE + const(shift) * ind_eq0(k.as_poly() - l.as_poly()))
            self.M = T([k, l], M)
            ev, V = I.unpack(I.call(Lib("np.linalg.eigh"), [self.M], {}), 2)
            self.ev = ev
            F = lambda i: q_of(kind, self.F0(i))
            self.F = F
            e = lambda i: at(ev, i)
            last = e(n_.size - 1)
            vtf = lambda i: (lambda j: S(conj_(at(V, j, i)) * F(j), j))(V_(n_))
            self.vtf = vtf

            def rho(i):
                j, d, b = V_(n_), V_("dev"), V_("batch")
                return fn("WVAR" + tag, T([d, b], S(conj_(at(V, j, i)) * q_of(kind, -x * at(CD, d, b, j, 0)), j)), props="rn")

            def ab(p):
                return I.num_of(I.call(Lib("np.abs"), [Tensor((), p)], {})).body
            self.snr = lambda i: ab(NS.body * conj_(vtf(i)) * vtf(i) / rho(i)).pow(Fr(1, 2))
            inv = lambda i: ind_lt0(const(Fr(1, 10 ** 14)) - ab(e(i) / last)) / e(i)

            def reg(i, cut):
                r = ONE / (ONE + (const(cut) / ab(e(i) / last)).pow(6))
                if not exact:
                    r = r / (ONE + (const(snrtol) / self.snr(i)).pow(6))
                return r

            def resid(cut):
                i, j = V_(n_), V_(n_)
                z = (inv(i) * reg(i, cut) * e(i) - ONE) * vtf(i)
                f = F(j)
                return (S(z * conj_(z), i) / S(f * conj_(f), j)).pow(Fr(1, 2))
            cut, self.steps = Fr(1, 100), []
            while cut > cutoff:
                cut *= Fr(8, 10)
                self.steps.append((max(cut, cutoff), resid))
            self.reg, self.inv, self.V, self.resid, self.tolerance = reg, inv, V, resid, tol

            def sol(cut):
                j, i = V_(n_), V_(n_)
                z = S(at(V, j, i) * inv(i) * reg(i, cut) * vtf(i), i)
                return j, (z + conj_(z)) * const(Fr(1, 2))
            self.sol = sol

        def outcome(self):
            """update, residual and cutoff"""
            (c0, r0) = self.steps[-1]
            j, u = self.sol(c0)
            r, c = self.resid(c0), const(c0)
            for cc, rr in reversed(self.steps[:-1]):
                stop = ONE - ind_lt0(self.tolerance - self.resid(cc))
                j2, u2 = self.sol(cc)
                u2 = u2.subst({j2.name: j.as_poly()})
                u, r, c = stop * u2 + (ONE - stop) * u, stop * self.resid(cc) + (ONE - stop) * r, stop * const(cc) + (ONE - stop) * c
            return T([j], u), Tensor((), r), Tensor((), c)

    def tdvp(I, kind, shift=0, exact=False, cutoff=Fr(9, 1000), tol=None, **kw):
        I.overrides["jVMC.mpi_wrapper.globNumSamples"] = NS
        smp = StubObj("sampler", {"__isa__": ("ExactSampler",) if exact else ()})
        kw.update(makeReal=Const(kind), rhsPrefactor=Tensor((), X), pinvCutoff=num(cutoff), pinvTol=Tensor((), tol if tol is not None else const(Fr(1, 10 ** 14))))
        if shift:
            kw["diagonalShift"] = num(shift)
        return smp, I.call(cls(ctx, TD), [smp], kw)

    def solution(kind, shift=0, exact=False, cutoff=Fr(9, 1000), tol=None, snrtol=None, device=True, values=None):
        I = ctx.interp()
        kw = {}
        if snrtol is not None:
            kw["snrTol"] = num(snrtol)
        if not device:
            kw["diagonalizeOnDevice"] = Const(False)
        smp, eq = tdvp(I, kind, shift, exact, cutoff, tol, **kw)
        ob = Obs(None)
        r = I.unpack(I.call(I.getattr(eq, "solve"), [ob.make("E"), ob.make("G")], {}), 3)
        ctx.done(I)
        sp = Spec(I, kind, "", shift, exact, tol, cutoff, snrtol if snrtol is not None else Fr(2))
        u, res, cut = sp.outcome()
        k = V_(n_)
        rs = [compare(I, I.num_of(g), v, label=lb, allow=AB, values=values) for g, v, lb in ((r[0], u, "update"), (r[2], cut, "cutoff"), (r[1], res, "residual"))]
        rs.append(compare(I, I.num_of(I.getattr(eq, "snr")), T([k], sp.snr(k)), label="signal-to-noise ratio", allow=AB))
        return conj(rs)
    W = where(ctx, TD + ".solve")
    for kind in ("real", "imag"):
        ctx.ob("solution/%s" % kind, "TDVP solution", W, lambda k=kind: solution(k))
        ctx.ob("solution/%s/exact" % kind, "TDVP solution", W, lambda k=kind: solution(k, exact=True))
    ctx.ob("solution/real/shift", "TDVP solution", W, lambda: solution("real", shift=Fr(1, 10), snrtol=Fr(3)))
    ctx.ob("solution/real/host", "TDVP solution", W, lambda: solution("real", exact=True, device=False))
    for v in (.9, .4, .01):
        ctx.ob("solution/real/two cutoffs/%s" % v, "TDVP solution", W, lambda v=v: solution("real", exact=True, cutoff=Fr(7, 1000), tol=sym("tol", props="rp"), values={"tol": v}))

    # ---- sequences of evaluations as right-hand side of an integrator
    def calls(kind, steps, cross=False, exact=True):
        """steps: the integration step number (or None) of successive evaluations"""
        I = ctx.interp()
        smp, eq = tdvp(I, kind, exact=exact, **({"crossValidation": Const(True)} if cross == "init" else {}))
        if cross == "set":
            I.call(I.getattr(eq, "set_cross_validation"), [], {})
        ob = Obs(None)
        cur = [array("THETA", [n_], props="r")]
        count = [0]
        dd = dict(dev="dev", batch="batch")

        def sample(I, a, k):
            count[0] += 1
            return Tup([data("SC%d" % count[0], "dev", "batch", "site", props="rin"), data("LP%d" % count[0], "dev", "batch"), data("PR%d" % count[0], "dev", "batch", props="rp")])
        smp.attrs["sample"] = PyFn(sample, "sample")

        def tag(t):
            """number of the sample a quantity was computed from"""
            ks = {a.name[2:] for a in I.num_of(t).body.atoms() if a.kind == "sym" and a.name[:2] in ("SC", "LP", "PR", "GR", "EL")}
            if len(ks) != 1:
                raise Unknown("mixed samples")
            return ks.pop()
        psi = StubObj("psi", {"get_parameters": PyFn(lambda I, a, k: cur[0], "get_parameters"),
                              "set_parameters": PyFn(lambda I, a, k: (cur.__setitem__(0, a[0]), NONE)[1], "set_parameters"),
                              "gradients": PyFn(lambda I, a, k: data("GR" + tag(a[0]), "dev", "batch", n_), "gradients")})
        ham = StubObj("ham", {"get_O_loc": PyFn(lambda I, a, k: data("EL" + tag(a[0]), "dev", "batch"), "get_O_loc")})

        def obs(I, a, k):
            t = I.num_of(a[0])
            if len(a) < 2 or tag(a[1]) != tag(t):
                raise Unknown("weights")
            nm = {x.name[:2] for x in t.body.atoms() if x.kind == "sym"}
            return ob.make("E" if "EL" in nm else "G", "@" + tag(t))
        I.overrides[SO] = PyFn(obs, "SampledObs")
        rs, first, shown = [], None, 0
        for i, st in enumerate(steps):
            kw = dict(psi=psi, hamiltonian=ham)
            if st is not None:
                kw["intStep"] = num(st)
            u = I.num_of(I.call(eq, [array("P%d" % i, [n_], props="r"), Tensor((), sym("t", props="r"))], kw))
            if i + 1 != count[0]:
                return dunno("samples drawn")
            sp = Spec(I, kind, "@%d" % (i + 1), exact=exact)
            want = sp.outcome()
            rs.append(compare(I, u, want[0], label="update of evaluation %d" % (i + 1), allow=AB))
            if st == 0:
                first = (i + 1, sp, want)
            if first is None:
                continue
            k, sp, want = first
            what = "after evaluations with step numbers %s" % (steps[:i + 1],)
            c1 = Dim.of_const(1)
            me, ve = at(array("ME@%d" % k, [c1]), 0), at(array("VE@%d" % k, [c1], props="rp"), 0)
            rs.append(compare(I, I.num_of(I.call(I.getattr(eq, "get_energy_variance"), [], {})), Tensor((), ve), label="energy variance " + what))
            rs.append(compare(I, I.num_of(I.call(I.getattr(eq, "get_energy_mean"), [], {})), Tensor((), q_of("real", me)), label="mean energy " + what))
            err, res = [I.num_of(x) for x in I.unpack(I.call(I.getattr(eq, "get_residuals"), [], {}), 2)]
            uu = want[0].opened()
            up = lambda v: uu.body.subst({uu.axes[0][0].name: v.as_poly()})
            a, b, c = V_(n_), V_(n_), V_(n_)
            U = array("U", [n_], props="r")
            z = ONE + (q_of("real", S(up(a) * sp.S0(a, b) * up(b), a, b)) - const(2) * q_of("real", S(up(c) * sp.F0(c), c))) / ve
            if i == len(steps) - 1 or st == 0:
                rs.append(compare(I, err, I.num_of(I.call(Lib("np.abs"), [Tensor((), z)], {})), label="TDVP error " + what, allow=AB, seeds=2, sizes=dict(n=2)))
            rs.append(compare(I, res, want[1], label="residual " + what, allow=AB))
            kk = V_(n_)
            rs.append(compare(I, I.num_of(I.call(I.getattr(eq, "get_spectrum"), [], {})), sp.ev, label="spectrum " + what, allow=AB))
            rs.append(compare(I, I.num_of(I.call(I.getattr(eq, "get_snr"), [], {})), T([kk], sp.snr(kk)), label="signal-to-noise ratio " + what, allow=AB, seeds=2))
            md = I.call(I.getattr(eq, "get_metadata"), [], {})
            for key, w in (("tdvp_error", err), ("tdvp_residual", res), ("pinv_cutoff", want[2]), ("spectrum", I.num_of(I.call(I.getattr(eq, "get_spectrum"), [], {}))), ("SNR", I.num_of(I.call(I.getattr(eq, "get_snr"), [], {})))):
                got = I.content(md).get(("s", key)) if isinstance(md, Ref) and md.kind == "dict" else None
                if got is None:
                    rs.append(flaw(I, "metadata has no entry %s" % key) if isinstance(md, Ref) and md.kind == "dict" else dunno("metadata %s" % short(md)))
                else:
                    rs.append(compare(I, I.num_of(got), w, label="metadata entry %s %s" % (key, what), allow=AB))
            if st == 0 and not cross:
                v, ka, kb = array("v", [n_], props="r"), V_(n_), V_(n_)
                rs.append(compare(I, I.num_of(I.call(I.getattr(eq, "S_dot"), [v], {})), T([ka], S(sp.S0(ka, kb) * at(v, kb), kb)), label="product with S " + what, allow=AB, seeds=2))
            if st == 0:
                rs.append(compare(I, I.num_of(I.call(I.getattr(eq, "get_S"), [], {})), sp.M, label="matrix " + what, allow=AB))
        ctx.done(I)
        return conj(rs)
    W = where(ctx, TD + ".__call__")
    ctx.ob("calls/first", "recorded quantities", W, lambda: calls("real", [0]))
    ctx.ob("calls/imag", "recorded quantities", W, lambda: calls("imag", [0]))
    ctx.ob("calls/no step number", "recorded quantities", W, lambda: calls("real", [0, None]))
    ctx.ob("calls/Runge-Kutta", "recorded quantities", W, lambda: calls("real", [0, 1]))
    ctx.ob("calls/two steps", "recorded quantities", W, lambda: calls("real", [0, 1, 0]))
    ctx.ob("calls/cross validation", "recorded quantities", W, lambda: calls("real", [0], cross="init"))
    ctx.ob("calls/cross validation/sequence", "recorded quantities", W, lambda: calls("real", [0, 1, 0], cross="set"))

    # ---- minSR
    def minsr():
        I = ctx.interp()
        w = data("p", "dev", "batch", props="rpN")
        G, E = data("G", "dev", "batch", n_), data("E", "dev", "batch")
        go, eo = I.call(cls(ctx, SO), [G, w], {}), I.call(cls(ctx, SO), [E, w], {})
        tol = Tensor((), sym("tol", props="rp"))
        ms = I.call(cls(ctx, MS), [StubObj("sampler", {"__isa__": ()})], {"pinvTol": tol})
        u = I.num_of(I.call(I.getattr(ms, "solve"), [eo, go], {}))
        ctx.done(I)

        def E_(f):
            d, b = V_("dev"), V_("batch")
            return over_rank(S(f(d, b) * at(w, d, b), d, b))
        Eb = E_(lambda d, b: at(E, d, b))

        def row(rr, d, b, k):
            Gk = E_(lambda d_, b_: at(G, d_, b_, k))
            return ((at(G, d, b, k) - Gk) * at(w, d, b).pow(Fr(1, 2))).subst({RK.name: rr.as_poly()})

        def ebar(rr, d, b):
            return ((at(E, d, b) - Eb) * at(w, d, b).pow(Fr(1, 2))).subst({RK.name: rr.as_poly()})
        i1, i2 = [var(RK.dim), V_("dev"), V_("batch")], [var(RK.dim), V_("dev"), V_("batch")]
        k = V_(n_)
        K_ = Tensor([tuple(i1), tuple(i2)], S(row(*i1, k) * conj_(row(*i2, k)), k))
        P_ = I.num_of(I.call(Lib("np.linalg.pinv"), [K_, tol], {}))
        flat = lambda ix: (ix[0].as_poly() * ix[1].dim.size + ix[1].as_poly()) * ix[2].dim.size + ix[2].as_poly()
        j1, j2, m = [var(RK.dim), V_("dev"), V_("batch")], [var(RK.dim), V_("dev"), V_("batch")], V_(n_)
        pe = P_.index_axis(0, flat(j1)).index_axis(0, flat(j2)).body
        want = T([m], S(-conj_(row(*j1, m)) * pe * ebar(*j2), *j1, *j2))
        return compare(I, u, want, label="update", allow=AB, sizes=dict(dev=2, batch=2, n=2), seeds=3)
    ctx.ob("minSR/solution", "minSR equation", where(ctx, MS + ".solve"), minsr)

    def minsr_calls(steps):
        I = ctx.interp()
        count = [0]
        c1 = Dim.of_const(1)

        def sample(I, a, k):
            count[0] += 1
            return Tup([data("SC%d" % count[0], "dev", "batch", "site", props="rin"), data("LP%d" % count[0], "dev", "batch"), data("PR%d" % count[0], "dev", "batch", props="rp")])

        def obs(I, a, k):
            o = StubObj("obs", {})
            o.attrs["mean"] = PyFn(lambda I, a_, k_: Tensor([()], at(array("ME%d" % count[0], [c1]), 0)), "mean")
            o.attrs["var"] = PyFn(lambda I, a_, k_: Tensor([()], at(array("VE%d" % count[0], [c1], props="rp"), 0)), "var")
            return o
        I.overrides[SO] = PyFn(obs, "SampledObs")
        I.overrides[MS + ".solve"] = PyFn(lambda I, a, k: array("U%d" % count[0], [n_], props="r"), "solve")
        psi = StubObj("psi", {"get_parameters": PyFn(lambda I, a, k: array("TH", [n_], props="r"), "g"), "set_parameters": PyFn(lambda I, a, k: NONE, "s"),
                              "gradients": PyFn(lambda I, a, k: data("GR", "dev", "batch", n_), "gradients")})
        ham = StubObj("ham", {"get_O_loc": PyFn(lambda I, a, k: data("EL", "dev", "batch"), "get_O_loc")})
        ms = I.call(cls(ctx, MS), [StubObj("sampler", {"sample": PyFn(sample, "sample"), "__isa__": ()})], {})
        rs, last = [], None
        for i, st in enumerate(steps):
            kw = dict(psi=psi, hamiltonian=ham)
            if st is not None:
                kw["intStep"] = num(st)
            u = I.num_of(I.call(ms, [array("P%d" % i, [n_], props="r"), Tensor((), sym("t", props="r"))], kw))
            rs.append(compare(I, u, array("U%d" % (i + 1), [n_], props="r"), label="update"))
            last = i + 1 if st == 0 else last
            rs.append(compare(I, I.num_of(I.call(I.getattr(ms, "get_energy_variance"), [], {})), Tensor((), at(array("VE%d" % last, [c1], props="rp"), 0)), label="energy variance after step numbers %s" % (steps[:i + 1],)))
            rs.append(compare(I, I.num_of(I.call(I.getattr(ms, "get_energy_mean"), [], {})), Tensor((), q_of("real", at(array("ME%d" % last, [c1]), 0))), label="mean energy after step numbers %s" % (steps[:i + 1],)))
        ctx.done(I)
        return conj(rs)
    ctx.ob("minSR/calls", "recorded quantities", where(ctx, MS + ".__call__"), lambda: minsr_calls([0, 1, None, 0]))

    # ---- ground state search
    def search(variances, steps, tol, shift):
        I = ctx.interp()
        cur = [array("TH", [n_], props="r")]
        log, deltas = [], []
        psi = StubObj("psi", {"get_parameters": PyFn(lambda I, a, k: cur[0], "get_parameters"),
                              "set_parameters": PyFn(lambda I, a, k: (cur.__setitem__(0, I.num_of(a[0])), NONE)[1], "set_parameters")})
        ham = StubObj("ham", {})

        def rhs(I, a, k):
            if k.get("psi") is not psi or k.get("hamiltonian") is not ham:
                raise Unknown("arguments of the equation")
            st = k.get("intStep")
            log.append((a[0], None if st is None else I.num_of(st).body.int_value()))
            o = I.num_of(a[0]).opened()
            return Tensor(o.axes, fn("RHS", *[v.as_poly() for ax in o.axes for v in ax], I.node(o), props="r"))
        eq = StubObj("eq", {"diagonalShift": None, "set_diagonal_shift": None, "get_energy_variance": PyFn(lambda I, a, k: num(variances[len(log) - 1]), "get_energy_variance"),
                            "get_energy_mean": PyFn(lambda I, a, k: Tensor((), sym("EM", props="r")), "get_energy_mean")})
        eq.callf = rhs
        if shift:
            eq.attrs["diagonalShift"] = num(shift)
            eq.attrs["set_diagonal_shift"] = PyFn(lambda I, a, k: (deltas.append(I.num_of(a[0])), NONE)[1], "set_diagonal_shift")
        dt = sym("eta", props="rp")
        smp = StubObj("sampler", {"__isa__": ()})
        I.call(fnv(ctx, I, "jVMC.util.util.ground_state_search"), [psi, ham, eq, smp], dict(numSteps=num(steps), varianceTol=num(tol), stepSize=Tensor((), dt)))
        ctx.done(I)
        n = 0
        while n < steps and (n == 0 or variances[n - 1] > tol):
            n += 1
        if len(log) != n:
            return flaw(I, "%d steps for energy variances %s (tolerance %s, at most %d steps), expected %d" % (len(log), variances, tol, steps, n))
        want = array("TH", [n_], props="r")
        for i in range(n):
            o = want.opened()
            want = Tensor(o.axes, o.body + dt * fn("RHS", *[v.as_poly() for ax in o.axes for v in ax], I.node(o), props="r"))
        rs = [compare(I, cur[0], want, label="parameters after %d steps" % n)]
        for p, st in log:
            if st != 0:
                rs.append(flaw(I, "equation evaluated with step number %s" % st))
        if shift:
            for i, d in enumerate(deltas):
                rs.append(compare(I, d, num(shift * Fr(95, 100) ** (i + 1)), label="diagonal shift after %d steps" % (i + 1)))
            if len(deltas) != n:
                rs.append(flaw(I, "diagonal shift changed %d times in %d steps" % (len(deltas), n)))
        return conj(rs)
    W = where(ctx, "jVMC.util.util.ground_state_search")
    h = Fr(1, 2)
    for nm, a in {"all steps": ([h, h, h], 3, Fr(1, 10), 0), "converged": ([h, Fr(1, 20), h], 3, Fr(1, 10), 0), "shift": ([h, h, h], 2, Fr(1, 10), Fr(2)), "no steps": ([], 0, Fr(1, 10), 0)}.items():
        ctx.ob("search/%s" % nm, "ground state search", W, lambda a=a: search(*a))
    ctx.floor("obligations", len(ctx.obs), 30)

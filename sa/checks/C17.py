from .common import *
from .. import evalnf
from fractions import Fraction as Fr

TITLE = "Integrators perform the documented integration steps"
ST = "jVMC.util.stepper."
TOL = Fr(1, 1000)


def run(ctx):
    t0 = sym("t", props="r")
    ARGS = dict(alpha=Tensor((), sym("alpha")), numSamples=Tensor((), sym("ns", props="ip")))

    def rhs(I, y, t, kw):
        """the right-hand side for extra arguments kw, as a function of vector and time"""
        y = I.num_of(y).opened()
        t = I.num_of(t).body
        return Tensor(y.axes, fn("RHS", *[v.as_poly() for ax in y.axes for v in ax], I.node(y), t, *[Seq([K(q), I.node(kw[q])]) for q in sorted(kw)]))

    def setup(shape):
        I = ctx.interp()
        log = []
        y = array("y", shape)

        def f(I, a, k):
            if len(a) != 2:
                return dunno("call of the right-hand side")
            kw = {q: v for q, v in k.items() if q != "intStep"}
            log.append((k.get("intStep"), I.num_of(a[0]), I.num_of(a[1]), I.where()))
            return rhs(I, a[0], a[1], kw)
        return I, y, PyFn(f, "f"), log

    def add(I, x, *terms):
        x = I.num_of(x)
        for c, v in terms:
            x = L.elementwise(lambda p, q, c=c: p + c * q, x, I.num_of(v))
        return x

    def stages(I, log, y0, t0, what):
        """intStep is 0 exactly for the evaluations at the beginning of the step"""
        for st, y, t, w in log:
            n = None if st is None else I.num_of(st).body.int_value()
            if n is None:
                return flaw(I, "%s: right-hand side evaluated at %s without a step number" % (what, w))
            d = compare(I, y, y0, allow=("RHS",))
            e = compare(I, t.body, t0)
            first = d.status == HOLDS and e.status == HOLDS
            if n == 0 and not first and not (d.status == UNDECIDED or e.status == UNDECIDED):
                return flaw(I, "%s: step number 0 is passed at %s for an intermediate evaluation" % (what, w))
            if n != 0 and first:
                return flaw(I, "%s: step number %d is passed at %s for the evaluation at the beginning" % (what, n, w))
        return ok("%d evaluations" % len(log))

    def heun(I, y, t, dt, kw):
        k0 = rhs(I, y, Tensor((), t), kw)
        k1 = rhs(I, add(I, y, (dt, k0)), Tensor((), t + dt), kw)
        return add(I, y, (dt * const(Fr(1, 2)), k0), (dt * const(Fr(1, 2)), k1))

    def fixed(name, given, calls, shape, setdt=False):
        I, y, f, log = setup(shape)
        dt = sym("dt", props="rp")
        st = I.call(cls(ctx, ST + name), [], dict(timeStep=Tensor((), dt)))
        kw = dict(ARGS)
        if given:
            dt = sym("DT", props="rp")
            kw["dt"] = Tensor((), dt)
        if setdt:
            dt = sym("DT2", props="rp")
            I.call(I.getattr(st, "set_dt"), [Tensor((), dt)], {})
        rs, t, cur = [], t0, y
        for c in range(calls):
            n0 = len(log)
            r = I.call(I.getattr(st, "step"), [Tensor((), t), f, cur], dict(kw))
            r = I.unpack(r, 2)
            want = add(I, cur, (dt, rhs(I, cur, Tensor((), t), kw))) if name == "Euler" else heun(I, cur, t, dt, kw)
            rs.append(compare(I, I.num_of(r[0]), want, label="state after step %d" % (c + 1)))
            rs.append(compare(I, I.num_of(r[1]), Tensor((), dt), label="reported time step"))
            rs.append(stages(I, log[n0:], cur, t, name))
            cur, t = I.num_of(r[0]), t + dt
        ctx.done(I)
        return conj(rs)
    n, m = Dim.named("n"), Dim.named("m")
    for name in ("Euler", "Heun"):
        W = where(ctx, ST + name + ".step")
        ctx.ob("%s/step" % name, "integration step", W, lambda nm=name: fixed(nm, False, 1, [n]))
        ctx.ob("%s/matrix" % name, "integration step", W, lambda nm=name: fixed(nm, False, 1, [n, m]))
        ctx.ob("%s/sequence" % name, "integration step", W, lambda nm=name: fixed(nm, False, 2, [n]))
    ctx.ob("Heun/given step", "integration step", where(ctx, ST + "Heun.step"), lambda: fixed("Heun", True, 2, [n]))
    ctx.ob("Heun/set_dt", "integration step", where(ctx, ST + "Heun.step"), lambda: fixed("Heun", False, 1, [n], setdt=True))

    def adaptive(norms, maxstep, dt0, shape=(n,), default_tol=False):
        """norms: per call of step the error norms of its attempts; the last one is the first below the tolerance"""
        I, y, f, log = setup(list(shape))
        args = dict(timeStep=num(dt0))
        tol = TOL
        if not default_tol:
            args["tol"] = num(TOL)
            if maxstep is not None:
                args["maxStep"] = num(maxstep)
        if default_tol:
            tol = Fr(1, 10 ** 8)
        mx = Fr(1) if maxstep is None else maxstep
        st = I.call(cls(ctx, ST + "AdaptiveHeun"), [], args)
        rs, t, cur, dt = [], t0, y, const(dt0)
        for c, script in enumerate(norms):
            seen = []

            def norm(I, a, k):
                seen.append(I.num_of(a[0]))
                if len(seen) > len(script):
                    raise Unknown("more attempts than expected")
                return num(script[len(seen) - 1])
            n0 = len(log)
            what = "step %d (error norms %s, tolerance %s)" % (c + 1, ", ".join(map(str, script)), tol)
            try:
                r = I.unpack(I.call(I.getattr(st, "step"), [Tensor((), t), f, cur], dict(normFunction=PyFn(norm, "norm"), **ARGS)), 2)
            except Unknown as ex:
                if len(seen) > len(script):
                    return flaw(I, "%s: the attempt with an error below the tolerance is not accepted" % what)
                raise
            if len(seen) != len(script):
                return flaw(I, "%s: accepted after %d attempts" % (what, len(seen)))
            for i, e in enumerate(script):
                full = add(I, heun(I, cur, t, dt, ARGS), (const(-1), cur))
                h = dt * const(Fr(1, 2))
                half = heun(I, cur, t, h, ARGS)
                half = heun(I, half, t + h, h, ARGS)
                diff = add(I, half, (const(-1), cur), (const(-1), full))
                a, b = compare(I, seen[i], diff, label="error estimate of %s, attempt %d" % (what, i + 1)), compare(I, seen[i], add(I, diff, (const(-2), diff)))
                rs.append(a if b.status != HOLDS else b)
                used = dt
                fe = float(tol / e)
                fac = min(2., max(.2, .9 * fe ** (1 / 3.)))
                dt = nxt = I.num_of(I.getattr(st, "dt")).body if i == len(script) - 1 else None
                v = None
                if nxt is not None:
                    v = nf.numeric(nxt)
                    want = min(float(mx), fac * nf.numeric(used))
                    if v is None:
                        rs.append(dunno("next time step %s" % short(Tensor((), nxt))))
                    elif abs(v - want) > 1e-3 * want:
                        rs.append(flaw(I, "%s: the next time step is %.6g, expected %.6g" % (what, v, want)))
                else:
                    # step of the next attempt: time at which the right-hand side is evaluated last
                    ts = [x[2].body - t for x in log[n0:]]
                    vals = [nf.numeric(x) for x in ts]
                    if any(x is None for x in vals):
                        return dunno("times %s" % ts)
                    want = min(float(mx), fac * nf.numeric(used))
                    c1 = [x for x, y_ in zip(ts, vals) if abs(y_ - want) <= 1e-3 * want]
                    if not c1:
                        return flaw(I, "%s: attempt %d does not use the time step %.6g" % (what, i + 2, want))
                    dt = c1[0]
            rs.append(compare(I, I.num_of(r[0]), half, label="state after %s" % what))
            rs.append(compare(I, I.num_of(r[1]), Tensor((), used), label="time step reported by %s" % what))
            rs.append(stages(I, log[n0:], cur, t, what))
            cur, t = I.num_of(r[0]), t + used
        ctx.done(I)
        return conj(rs)
    W = where(ctx, ST + "AdaptiveHeun.step")
    B, E, T_ = Fr(1, 50), Fr(1, 4000), Fr(1, 10 ** 9)
    cases = {"accepted": ([[E]], None, Fr(1, 10)), "tiny error": ([[T_]], None, Fr(1, 10)), "at tolerance": ([[TOL]], None, Fr(1, 10)),
             "rejected once": ([[B, E]], None, Fr(1, 10)), "large error": ([[Fr(10), E]], None, Fr(1, 10)), "rejected twice": ([[B, Fr(1, 300), E]], None, Fr(1, 10)),
             "maximal step": ([[T_]], Fr(3, 20), Fr(1, 10)), "default maximal step": ([[T_]], None, Fr(3, 4)), "sequence": ([[E], [E]], None, Fr(1, 10)),
             "sequence with rejection": ([[B, E], [T_]], None, Fr(1, 10)), "capped on rejection": ([[Fr(1, 900), E]], Fr(1, 20), Fr(1, 10)),
             "slightly above tolerance": ([[Fr(1, 990), E]], None, Fr(1, 10))}
    for nm, (norms, mx, dt0) in cases.items():
        ctx.ob("AdaptiveHeun/%s" % nm, "adaptive step", W, lambda a=(norms, mx, dt0): adaptive(*a))
    ctx.ob("AdaptiveHeun/matrix", "adaptive step", W, lambda: adaptive([[B, E]], None, Fr(1, 10), (n, m)))
    ctx.ob("AdaptiveHeun/default tolerance", "adaptive step", W, lambda: adaptive([[Fr(1, 10 ** 7), Fr(1, 10 ** 9)]], None, Fr(1, 10), default_tol=True))

    def default_norm(scale, given=None):
        """with the default norm the error is measured by the Euclidean norm of the difference"""
        I = ctx.interp()
        y = I.array_of(Tup([num(3), num(4)]))
        f = PyFn(lambda I, a, k: L.elementwise(lambda q: q * const(scale), I.num_of(a[0])), "f")
        d = Fr(1, 2)
        z = Fr(scale) * d
        full = 1 + z + z * z / 2
        half = (1 + z / 2 + z * z / 8) ** 2
        err = 5 * abs(half - full) if given is None else given
        tol = err * Fr(11, 10)
        st = I.call(cls(ctx, ST + "AdaptiveHeun"), [], dict(timeStep=num(d), tol=num(tol), maxStep=num(100)))
        r = I.unpack(I.call(I.getattr(st, "step"), [Tensor((), t0), f, y], {} if given is None else {"normFunction": PyFn(lambda I, a, k: num(given), "norm")}), 2)
        ctx.done(I)
        v = nf.numeric(I.num_of(I.getattr(st, "dt")).body)
        used = nf.numeric(I.num_of(r[1]).body)
        if v is None or used is None or I.tainted:
            return dunno("next time step")
        want = .9 * 1.1 ** (1 / 3.) * .5
        if abs(v - want) > 1e-3 * want or abs(used - .5) > 1e-9:
            return flaw(I, "error %.4g and tolerance %.4g: step %.5g accepted, next step %.5g instead of %.5g" % (float(err), float(tol), used, v, want))
        return ok("next step %.5g" % v)
    ctx.ob("AdaptiveHeun/default norm", "adaptive step", W, lambda: default_norm(1))
    ctx.ob("AdaptiveHeun/given norm", "adaptive step", W, lambda: default_norm(1, Fr(1, 3)))
    ctx.floor("obligations", len(ctx.obs), 22)

from .common import *

TITLE = "Global reductions equal the weighted statistics of the union of all samples"


def run(ctx):
    M = "jVMC.mpi_wrapper."
    for extra in ((), ("n",), ("n", "m")):
        for q in ("global_sum", "global_mean"):
            def go(q=q, extra=extra):
                I = ctx.interp()
                X = data("X", "dev", "batch", *extra)
                w = data("p", "dev", "batch", props="rn")
                r = I.call(fnv(ctx, I, M + q), [X] if q == "global_sum" else [X, w], {})
                d, b = V_("dev"), V_("batch")
                es = [V_(e) for e in extra]
                x = at(X, d, b, *es)
                if q == "global_mean":
                    x = x * at(w, d, b)
                want = T(es, over_rank(S(x, d, b)))
                ctx.done(I)
                return compare(I, r, want)
            if q == "global_mean" and len(extra) == 2:
                continue    # documented for vectors; matrices go through global_sum
            ctx.ob("%s/%d" % (q, len(extra)), "reduction-term", where(ctx, M + q), go)

    def variance():
        I = ctx.interp()
        X, w = data("X", "dev", "batch", "n"), data("p", "dev", "batch", props="rn")
        r = I.call(fnv(ctx, I, M + "global_variance"), [X, w], {})
        n, d, b = V_("n"), V_("dev"), V_("batch")
        d2, b2 = V_("dev"), V_("batch")
        mean = over_rank(S(at(X, d, b, n) * at(w, d, b), d, b))
        dev = at(X, d2, b2, n) - mean
        want = T([n], over_rank(S(dev * dev.conjugate() * at(w, d2, b2), d2, b2)))
        ctx.done(I)
        return compare(I, r, want)
    ctx.ob("global_variance", "reduction-term", where(ctx, M + "global_variance"), variance)

    def covariance():
        I = ctx.interp()
        X, w = data("X", "dev", "batch", "n"), data("p", "dev", "batch", props="rnN")
        r = I.call(fnv(ctx, I, M + "global_covariance"), [X, w], {})
        n, m, d, b = V_("n"), V_("n"), V_("dev"), V_("batch")

        def mean(k):
            d, b = V_("dev"), V_("batch")
            return over_rank(S(at(X, d, b, k) * at(w, d, b), d, b))
        c = over_rank(S(at(X, d, b, n).conjugate() * at(X, d, b, m) * at(w, d, b), d, b)) - mean(n).conjugate() * mean(m)
        ctx.done(I)
        a = compare(I, r, T([n, m], c))
        if a.status == HOLDS:
            return a
        bb = compare(I, r, T([m, n], c))     # either conjugation convention
        return bb if bb.status == HOLDS else a
    ctx.ob("global_covariance", "reduction-term", where(ctx, M + "global_covariance"), covariance)

    def gather():
        I = ctx.interp()
        X = data("X", "dev", "batch", "n")
        r = I.call(fnv(ctx, I, M + "gather"), [X], {})
        ctx.done(I)
        # entry (rank, dev, batch) of the result is the sample of that rank and device, in rank-major order
        rv, d, b, n = var(RK.dim), V_("dev"), V_("batch"), V_("n")
        want = Tensor([(rv, d, b), (n,)], at(X, d, b, n).subst({RK.name: rv.as_poly()}))
        return compare(I, r, want)
    ctx.ob("gather", "reduction-term", where(ctx, M + "gather"), gather)
    ctx.floor("obligations", len(ctx.obs), 8)

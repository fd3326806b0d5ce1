from .common import *

TITLE = "Sampled observables report the weighted statistics of the data they stand for"
Q = "jVMC.stats.SampledObs"


def ab2(z):
    return z * z.conjugate()


class W:
    """specification: weighted statistics over all processes, devices, samples"""

    def __init__(self, bdim="batch"):
        self.bd = bdim
        self.w = data("p", "dev", "batch", props="rpN")

    def E(self, f):
        d, b = V_("dev"), V_("batch")
        return over_rank(S(f(d, b) * at(self.w, d, b), d, b))


def run(ctx):
    def wh(m):
        return where(ctx, Q + "." + m)

    def setup(name="X", dims=("n",)):
        I = ctx.interp()
        s = W()
        X = data(name, "dev", "batch", *dims)
        o = I.call(cls(ctx, Q), [X, s.w], {})
        return I, s, X, o

    def mean_of(s, X, k):
        return s.E(lambda d, b: at(X, d, b, k))

    def ob_mean():
        rs = []
        I, s, X, o = setup()
        n = V_("n")
        rs.append(compare(I, I.call(I.getattr(o, "mean"), [], {}), T([n], mean_of(s, X, n)), label="vector observations"))
        ctx.done(I)
        I, s, X, o = setup(dims=())
        rs.append(compare(I, I.call(I.getattr(o, "mean"), [], {}), Tensor([()], s.E(lambda d, b: at(X, d, b))), label="scalar observations"))
        ctx.done(I)
        I, s, X, o = setup(dims=("n", "m"))
        n, m = V_("n"), V_("m")
        rs.append(compare(I, I.call(I.getattr(o, "mean"), [], {}), T([n, m], s.E(lambda d, b: at(X, d, b, n, m))), label="matrix observations"))
        ctx.done(I)
        return conj(rs)
    ctx.ob("mean", "statistics-term", wh("mean"), ob_mean)

    def ob_var():
        I, s, X, o = setup()
        n = V_("n")
        mu = mean_of(s, X, n)
        r = I.call(I.getattr(o, "var"), [], {})
        ctx.done(I)
        return compare(I, r, T([n], s.E(lambda d, b: (at(X, d, b, n) - mu) * (at(X, d, b, n) - mu).conjugate())))
    ctx.ob("var", "statistics-term", wh("var"), ob_var)

    def two():
        I, s, X, o = setup()
        Y = data("Y", "dev", "batch", "m")
        o2 = I.call(cls(ctx, Q), [Y, s.w], {})
        return I, s, X, o, Y, o2

    def cov_term(s, X, Y, n, m):
        a, c = mean_of(s, X, n), mean_of(s, Y, m)
        return s.E(lambda d, b: (at(X, d, b, n) - a).conjugate() * (at(Y, d, b, m) - c))

    def ob_covar():
        I, s, X, o, Y, o2 = two()
        n, m, n2 = V_("n"), V_("m"), V_("n")
        r = I.call(I.getattr(o, "covar"), [o2], {})
        r2 = I.call(I.getattr(o, "covar"), [], {})
        ctx.done(I)
        return conj([compare(I, r, T([n, m], cov_term(s, X, Y, n, m)), label="covar(other)"),
                     compare(I, r2, T([n, n2], cov_term(s, X, X, n, n2)), label="covar()")])
    ctx.ob("covar", "statistics-term", wh("covar"), ob_covar)

    def ob_covar_data():
        I, s, X, o, Y, o2 = two()
        n, m = V_("n"), V_("m")
        r = I.call(I.getattr(o, "covar_data"), [o2], {})
        mean = I.call(I.getattr(r, "mean"), [], {})
        rs = [compare(I, mean, T([n, m], cov_term(s, X, Y, n, m)), label="mean of covar_data(other)")]
        v = I.call(I.getattr(r, "var"), [], {})
        a, c = mean_of(s, X, n), mean_of(s, Y, m)
        cv = cov_term(s, X, Y, n, m)
        rs.append(compare(I, v, T([n, m], s.E(lambda d, b: ab2((at(X, d, b, n) - a).conjugate() * (at(Y, d, b, m) - c) - cv))),
                          label="variance of covar_data(other)"))
        ctx.done(I)
        return conj(rs)
    ctx.ob("covar_data", "statistics-term", wh("covar_data"), ob_covar_data)

    def ob_covar_var():
        I, s, X, o, Y, o2 = two()
        n, m = V_("n"), V_("m")
        r = I.call(I.getattr(o, "covar_var"), [o2], {})
        r2 = I.call(I.getattr(o, "covar_var"), [], {})
        a, c = mean_of(s, X, n), mean_of(s, Y, m)
        want = s.E(lambda d, b: ab2(at(X, d, b, n) - a) * ab2(at(Y, d, b, m) - c)) - ab2(cov_term(s, X, Y, n, m))
        ctx.done(I)
        k = V_("n")
        c2 = mean_of(s, X, k)
        want2 = s.E(lambda d, b: ab2(at(X, d, b, n) - a) * ab2(at(X, d, b, k) - c2)) - ab2(cov_term(s, X, X, n, k))
        return conj([compare(I, r, T([n, m], want), label="covar_var(other)"), compare(I, r2, T([n, k], want2), label="covar_var()")])
    ctx.ob("covar_var", "statistics-term", wh("covar_var"), ob_covar_var)

    def ob_transform():
        I, s, X, o = setup()
        f = PyFn(lambda I, a, k: elementwise(lambda x: fn("F", x), a[0]), "F")
        r = I.call(I.getattr(o, "transform"), [], {"nonLinearFun": f})
        n = V_("n")
        rs = [compare(I, I.call(I.getattr(r, "mean"), [], {}), T([n], s.E(lambda d, b: fn("F", at(X, d, b, n)))), label="mean of transform(f)")]
        r = I.call(I.getattr(o, "transform"), [], {})
        rs.append(compare(I, I.call(I.getattr(r, "mean"), [], {}), T([n], mean_of(s, X, n)), label="mean of transform()"))
        k = V_("n")
        rs.append(compare(I, I.call(I.getattr(r, "covar"), [], {}), T([n, k], cov_term(s, X, X, n, k)), label="covariance of transform()"))
        ctx.done(I)
        return conj(rs)
    ctx.ob("transform", "statistics-term", wh("transform"), ob_transform)

    def ob_select():
        I, s, X, o = setup()
        ix = array("ixs", ["m"], props="i")
        r = I.call(I.getattr(o, "select"), [ix], {})
        m, k = V_("m"), V_("m")
        p, q = at(ix, m), at(ix, k)
        rs = [compare(I, I.call(I.getattr(r, "mean"), [], {}), T([m], mean_of(s, X, p)), label="mean of selection"),
              compare(I, I.call(I.getattr(r, "covar"), [], {}), T([m, k], cov_term(s, X, X, p, q)), label="covariance of selection")]
        ctx.done(I)
        return conj(rs)
    ctx.ob("select", "statistics-term", wh("select"), ob_select)

    def ob_subset():
        rs = []
        for lab, args, lo, size in (("[a:b]", ["a", "b"], "a", None), ("[:]", [], None, None)):
            I, s, X, o = setup()
            A, B = sym("a", props="in"), sym("b", props="in")
            if args:
                # subset of constant range 1..3 of a batch of five samples
                I = ctx.interp()
                w = data("p5", "dev", Dim.of_const(5), props="rpN")
                X = data("X", "dev", Dim.of_const(5), "n")
                o = I.call(cls(ctx, Q), [X, w], {})
                r = I.call(I.getattr(o, "subset"), [num(1), num(4)], {})
                rng, wt = range(1, 4), w
            else:
                r = I.call(I.getattr(o, "subset"), [], {})
                rng, wt = None, s.w
            n, k = V_("n"), V_("n")

            def E(f):
                d = V_("dev")
                if rng is None:
                    b = V_("batch")
                    t = S(f(d, b) * at(wt, d, b), b)
                else:
                    t = ZERO
                    for c in rng:
                        t = t + f(d, const(c)) * at(wt, d, c)
                return over_rank(S(t, d))
            Z = E(lambda d, b: ONE)
            mean = lambda k: E(lambda d, b: at(X, d, b, k)) / Z
            mn, mk = mean(n), mean(k)
            cov = E(lambda d, b: (at(X, d, b, n) - mn).conjugate() * (at(X, d, b, k) - mk)) / Z
            rs.append(compare(I, I.call(I.getattr(r, "mean"), [], {}), T([n], mn), label="mean of subset" + lab))
            rs.append(compare(I, I.call(I.getattr(r, "covar"), [], {}), T([n, k], cov), label="covariance of subset" + lab))
            ctx.done(I)
        return conj(rs)
    ctx.ob("subset", "statistics-term", wh("subset"), ob_subset)

    def ob_kernel():
        I, s, X, o = setup()
        r = I.call(I.getattr(o, "tangent_kernel"), [], {})
        ctx.done(I)
        r1, d1, b1 = var(RK.dim), V_("dev"), V_("batch")
        r2, d2, b2 = var(RK.dim), V_("dev"), V_("batch")
        n = V_("n")
        mu = mean_of(s, X, n)

        def row(rr, d, b):
            t = (at(X, d, b, n) - mu) * fn("sqrt", at(s.w, d, b)) if False else (at(X, d, b, n) - mu) * at(s.w, d, b).pow(F(1, 2))
            return t.subst({RK.name: rr.as_poly()})
        want = Tensor([(r1, d1, b1), (r2, d2, b2)], S(row(r1, d1, b1) * row(r2, d2, b2).conjugate(), n))
        return compare(I, r, want)
    ctx.ob("tangent_kernel", "statistics-term", wh("tangent_kernel"), ob_kernel)

    def ob_estimator():
        I = ctx.interp()
        s = W()
        C = data("cfg", "dev", "batch", "site")

        def est(I, a, k):
            return Tensor((), fn("EST", I.node(a[0]), I.node(a[1])))
        par = Tensor((), sym("par"))
        par2 = Tensor((), sym("par2"))
        o = I.call(cls(ctx, Q), [C, s.w, PyFn(est, "est"), par], {})

        def val(p):
            return s.E(lambda d, b: fn("EST", I.node(p), I.node(C.index_axis(0, d.as_poly()).index_axis(0, b.as_poly()))))
        rs = [compare(I, I.call(I.getattr(o, "mean"), [], {}), Tensor([()], val(par)), label="mean() with estimator")]
        rs.append(compare(I, I.call(I.getattr(o, "mean"), [par2], {}), Tensor([()], val(par2)), label="mean(params)"))
        # the covariance after re-evaluation refers to the new parameters
        f = lambda d, b: fn("EST", I.node(par2), I.node(C.index_axis(0, d.as_poly()).index_axis(0, b.as_poly())))
        mu = val(par2)
        rs.append(compare(I, I.call(I.getattr(o, "var"), [], {}), Tensor([()], s.E(lambda d, b: ab2(f(d, b) - mu))), label="var() after mean(params)"))
        ctx.done(I)
        return conj(rs)
    ctx.ob("estimator", "statistics-term", wh("mean"), ob_estimator)
    ctx.floor("obligations", len(ctx.obs), 10)
    ctx.assumptions += ["observations and weights carry leading device and batch axes, weights are positive and sum to one over all processes",
                        "jax.pmap/vmap/psum and MPI Allreduce/allgather follow their documented semantics"]

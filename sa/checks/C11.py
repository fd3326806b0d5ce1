from .nqs import *

TITLE = "Gradients are derivatives with respect to the entries of the parameter vector"
SMALL = [("w", "kernel", (2, 2)), ("b", "bias", (2,)), ("c", "value", ())]


def locate(I, treev, real):
    """term of a parameter-vector entry -> (leaf, index, part)"""
    import itertools
    fl, out = [], {}
    L.collect(I, treev, fl)
    for l in fl:
        for ix in itertools.product(*[range(l.axis_size(k).int_value()) for k in range(l.rank)]):
            e = at(l, *ix)
            if real:
                out[e.key] = (l, ix, "x")
            else:
                out[L.real_part(e).key] = (l, ix, "x")
                out[L.imag_part(e).key] = (l, ix, "y")
    return out


def deriv(name, holo, loc, *args):
    l, ix, c = loc
    if holo:
        r = fn(name + "d", leaf_node(l), *[const(i) for i in ix], *args)
        return r if c == "x" else r.scale(CQ(0, 1))
    return fn(name + "d" + c, leaf_node(l), *[const(i) for i in ix], *args)


def dfn(name, holo):
    def d(a, leaf, ix, c):
        r = fn(name + ("d" if holo else "d" + c), leaf_node(leaf), *ix, *a.args)
        if holo and c == "y":
            r = r.scale(CQ(0, 1))
        if "r" in a.props:
            r = L.real_part(r)
        return r.conjugate() if a.conj else r
    return d


KINDS = [("real parameters", True, False, False), ("real parameters, real network", True, False, True), ("holomorphic", False, True, False), ("complex non-holomorphic", False, False, False)]


def setup(ctx, real, holo, outreal, leaves=SMALL):
    I, psi, net = make_nqs(ctx, real, holo, batch=2, leaves=leaves, outreal=outreal)
    I.diff_fns["NET"] = dfn("NET", holo)
    p = vec(I, I.call(I.getattr(psi, "get_parameters"), [], {}))
    if p is None:
        raise Unknown("parameter vector")
    loc = locate(I, I.getattr(psi, "params"), real)
    if any(e.key not in loc for e in p):
        raise Unknown("parameter vector holds transformed parameters")
    return I, psi, p, [loc[e.key] for e in p]


def gradspec(I, psi, real, holo, outreal, s, locs, d, b):
    P0 = I.node(I.getattr(psi, "parameters"))
    row = s.index_axis(0, d).index_axis(0, b)
    out = []
    for lc in locs:
        e = deriv("NET", holo, lc, P0, I.node(row))
        out.append(L.real_part(e) if outreal else e)
    return out


def run(ctx):
    for name, real, holo, outreal in KINDS:
        def grads(real=real, holo=holo, outreal=outreal, name=name):
            I, psi, p, locs = setup(ctx, real, holo, outreal)
            s = data("s", "dev", Dim.of_const(3), "site", props="rin")
            g = I.call(I.getattr(psi, "gradients"), [s], {})
            ctx.done(I)
            d, b = V_("dev"), var(Dim.of_const(3))
            gt = I.num_of(g)
            if gt.axes is None or gt.unk:
                return dunno("gradient %s" % short(gt))
            if gt.rank != 3:
                return flaw(I, "gradients have rank %d instead of 3" % gt.rank)
            n = gt.axis_size(2).int_value()
            if n != len(p):
                return flaw(I, "%s: gradient has %s entries, parameter vector has %d" % (name, n, len(p)))
            rs = []
            want = gradspec(I, psi, real, holo, outreal, s, locs, d.as_poly(), b.as_poly())
            for k in range(n):
                rs.append(compare(I, gt.index_axis(2, const(k)), T([d, b], want[k]), label="%s, entry %d (%s part of %s)" % (name, k, "imaginary" if locs[k][2] == "y" else "real", pretty(p[k], 60))))
            return conj(rs)
        ctx.ob("gradients/" + name.replace(" ", "-"), "gradient-alignment", where(ctx, N + ".gradients"), grads)

        def gdict(real=real, holo=holo, outreal=outreal, name=name):
            """dictionary gradients, placed at the positions named by grad_dict_to_vec_map, form the gradient vector"""
            I, psi, p, locs = setup(ctx, real, holo, outreal)
            s = data("s", "dev", Dim.of_const(3), "site", props="rin")
            g = I.call(I.getattr(psi, "gradients_dict"), [s], {})
            m = I.call(I.getattr(psi, "grad_dict_to_vec_map"), [], {})
            ctx.done(I)
            fa, fb = [], []
            L.collect(I, g, fa)
            L.collect(I, m, fb)
            if any(not isinstance(x, Tensor) or x.axes is None for x in fa + fb):
                return dunno("dictionary gradient %s" % fa)
            if len(fa) != len(fb):
                return flaw(I, "dictionary gradient and index map have different structure")
            d, b = V_("dev"), var(Dim.of_const(3))
            want = gradspec(I, psi, real, holo, outreal, s, locs, d.as_poly(), b.as_poly())
            seen, rs = set(), []
            for ga, ia in zip(fa, fb):
                ga, ia = I.num_of(ga), I.num_of(ia)
                if ga.axes is None or ia.axes is None or ga.unk or ia.unk:
                    return dunno("dictionary gradient %s" % short(ga))
                iv = vec(I, ia)
                if iv is None or ga.rank != 3:
                    return dunno("dictionary gradient of rank %d" % ga.rank)
                n = ga.axis_size(2).int_value()
                if n != len(iv):
                    return flaw(I, "%s: leaf has %s gradients but %d positions in the vector" % (name, n, len(iv)))
                for q, x in enumerate(iv):
                    k = x.int_value()
                    if k is None or not 0 <= k < len(p):
                        return flaw(I, "%s: position %s outside of the parameter vector of length %d" % (name, x, len(p)))
                    if k in seen:
                        return flaw(I, "%s: position %d occurs twice" % (name, k))
                    seen.add(k)
                    rs.append(compare(I, ga.index_axis(2, const(q)), T([d, b], want[k]), label="%s, dictionary entry for position %d" % (name, k)))
            if len(seen) != len(p):
                return flaw(I, "%s: positions %s are not covered" % (name, sorted(set(range(len(p))) - seen)))
            return conj(rs)
        ctx.ob("gradients_dict/" + name.replace(" ", "-"), "gradient-alignment", where(ctx, N + ".gradients_dict"), gdict)

        def mag(real=real, holo=holo, outreal=outreal, name=name):
            """derivative of the mean of a parametrised estimator"""
            lv = [("w", "kernel", (1,)), ("b", "bias", ())]
            I, psi, p, locs = setup(ctx, real, holo, outreal, lv)
            I.diff_fns["EST"] = dfn("EST", False)
            est = PyFn(lambda I, a, k: Tensor((), fn("EST", I.node(a[0]), I.node(a[1]))), "estimator")
            nb = 2
            s = data("s", "dev", Dim.of_const(nb), "site", props="rin")
            w = data("p", "dev", Dim.of_const(nb), props="pN")
            o = I.call(cls(ctx, "jVMC.stats.SampledObs"), [], {"observations": s, "weights": w, "estimator": est})
            P0 = I.getattr(psi, "parameters")
            r = I.call(I.getattr(o, "mean_and_grad"), [psi, P0], {})
            m, g = I.unpack(r, 2)
            ctx.done(I)
            Pn = I.node(P0)

            def avg(f):
                d, b = V_("dev"), var(Dim.of_const(nb))
                row = I.node(s.index_axis(0, d.as_poly()).index_axis(0, b.as_poly()))
                return over_rank(S(f(row, d, b) * at(w, d, b), d, b))
            em = avg(lambda row, d, b: fn("EST", Pn, row))
            rs = [compare(I, I.call_lib("np.ravel", [m], {}), Tensor([()], em), label="mean")]
            gt = I.num_of(g)
            v = vec(I, gt)
            if v is None:
                return dunno("gradient %s" % short(gt))
            if len(v) != len(p):
                return flaw(I, "gradient of the mean has %d entries, parameter vector has %d" % (len(v), len(p)))
            for k in range(len(p)):
                def lg(row, d, b):
                    e = deriv("NET", holo, locs[k], Pn, row)
                    return (L.real_part(e)).scale(CQ(2))
                gm = avg(lg)
                want = avg(lambda row, d, b: (lg(row, d, b) - gm) * (fn("EST", Pn, row) - em)) + avg(lambda row, d, b: deriv("EST", False, locs[k], Pn, row))
                rs.append(compare(I, Tensor((), v[k]), Tensor((), want), label="%s, entry %d" % (name, k), sizes=dict(site=1)))
            return conj(rs)
        ctx.ob("mean_and_grad/" + name.replace(" ", "-"), "gradient-alignment", where(ctx, "jVMC.stats.SampledObs.mean_and_grad"), mag)
    ctx.floor("obligations", len(ctx.obs), 12)

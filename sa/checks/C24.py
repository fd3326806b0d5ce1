from .samp import *
from .C07 import net_eval, scalar_param
from .. import evalnf
import cmath
import itertools

TITLE = "Exact enumeration covers every basis state once with its exact probability"
LP = Tensor((), sym("lpf", props="rp"))


def run(ctx):
    def exact(shape, ldim, calls, grid, lpf=LP):
        I = ctx.interp()
        net = make_net(I, True, False, leaves=TINY)

        def apply(I, a, k):
            return Tensor((), net_eval(I, a[1], False, scalar_param(I, a[0])))
        net.attrs["apply"] = PyFn(apply, "apply")
        psi = I.call(cls(ctx, N), [net], {})
        kw = {"lDim": num(ldim)}
        if lpf is not None:
            kw["logProbFactor"] = lpf
        smp = I.call(cls(ctx, SM + "ExactSampler"), [psi, Tup([num(n) for n in shape])], kw)
        for c in range(calls):
            if c:
                I.call(I.getattr(psi, "set_parameters"), [array("P%d" % c, [Dim.of_const(2)], props="r")], {})
            par = scalar_param(I, I.getattr(psi, "parameters"))
            r = I.call(I.getattr(smp, "sample"), [], {})
        conf, logp, w = [I.num_of(x) for x in I.unpack(r, 3)]
        ctx.done(I)
        if I.tainted or conf.unk or logp.unk or w.unk:
            return dunno("%s" % "; ".join(I.notes[-2:]))
        if conf.axes is None or conf.rank != 2 + len(shape) or logp.rank != 2 or w.rank != 2:
            return flaw(I, "shapes of configurations %s, amplitudes %s, weights %s" % (short(conf), short(logp), short(w)))
        all_states = list(itertools.product(range(ldim), repeat=int(numpy_prod(shape))))
        pts = 0
        d, k = V_("dev"), V_("kk")
        row = conf.index_axis(0, d.as_poly()).index_axis(0, k.as_poly())
        lrow = logp.index_axis(0, d.as_poly()).index_axis(0, k.as_poly()).body
        wrow = w.index_axis(0, d.as_poly()).index_axis(0, k.as_poly()).body
        ref = [V_("x%d" % i) for i in range(len(shape))]
        spec = Tensor([(var(Dim.of_const(n)),) if n > 1 else () for n in shape], ZERO)
        for procs, devs in grid:
            V = evalnf.Valuation(1, sizes=dict(rank=procs, dev=devs))
            got = {}
            for r in range(procs):
                V.genv[RK.name] = r
                V.cache.clear()
                n = int(round(V.poly(conf.axis_size(1), V.genv).real))
                for nm, t in (("amplitudes", logp), ("weights", w)):
                    if int(round(V.poly(t.axis_size(1), V.genv).real)) != n:
                        return flaw(I, "different number of configurations and %s" % nm)
                for dd in range(devs):
                    for kk in range(n):
                        env = {d.name: dd, k.name: kk, RK.name: r}
                        s = []
                        for pt in itertools.product(*[range(x) for x in shape]):
                            q = row
                            for x in pt:
                                q = q.index_axis(0, const(x))
                            s.append(int(round(V.poly(q.body, env).real)))
                        wv = V.poly(wrow, env)
                        pts += 1
                        if abs(wv) > 1e-12:
                            s = tuple(s)
                            if s not in set(all_states):
                                return flaw(I, "%s on %d processes with %d devices: configuration %s carries weight" % (describe(shape, ldim), procs, devs, s))
                            got.setdefault(s, []).append((wv, V.poly(lrow, env), r, dd, kk))
            ex = {}
            for s in all_states:
                t = I.array_of(Tup([num(x) for x in s]))
                t = I.call(Lib("np.reshape"), [t, Tup([num(x) for x in shape])], {}) if len(shape) > 1 else t
                ex[s] = V.poly(net_eval(I, t, False, par), dict(V.genv))
            l = V.poly(lpf.body, dict(V.genv)).real if lpf is not None else .5
            Z = sum(cmath.exp(z.real / l).real for z in ex.values())
            for s in all_states:
                e = got.get(s, [])
                tot = sum(x[0] for x in e)
                want = cmath.exp(ex[s].real / l).real / Z
                if abs(tot - want) > 1e-8:
                    return flaw(I, "%s on %d processes with %d devices: state %s occurs %d times with total weight %.6g, its probability is %.6g" % (
                        describe(shape, ldim), procs, devs, s, len(e), tot.real, want))
                for x in e:
                    if abs(x[1] - ex[s]) > 1e-8:
                        return flaw(I, "%s: amplitude of state %s is that of another state" % (describe(shape, ldim), s))
        return ok("%d rows" % pts)

    def describe(shape, ldim):
        return "lattice %s with local dimension %d" % (shape, ldim)

    def numpy_prod(x):
        r = 1
        for y in x:
            r *= y
        return r
    G = [(1, 1), (1, 3), (2, 1), (3, 2)]
    W = where(ctx, SM + "ExactSampler.sample")
    ctx.ob("enumeration/2", "enumeration", W, lambda: exact((2,), 2, 1, G))
    ctx.ob("enumeration/3", "enumeration", W, lambda: exact((3,), 2, 1, G))
    ctx.ob("enumeration/1x2", "enumeration", W, lambda: exact((1, 2), 2, 1, G))
    ctx.ob("enumeration/2-local-3", "enumeration", W, lambda: exact((2,), 3, 1, G[1:]))
    ctx.ob("enumeration/2-local-4", "enumeration", W, lambda: exact((2,), 4, 1, [(2, 1), (3, 2)]))
    ctx.ob("enumeration/default-factor", "enumeration", W, lambda: exact((2,), 2, 1, G[1:3], None))
    ctx.ob("repeated/2", "enumeration", W, lambda: exact((2,), 2, 2, G))
    ctx.ob("repeated/3", "enumeration", W, lambda: exact((2,), 2, 3, G[1:3]))
    ctx.floor("obligations", len(ctx.obs), 8)

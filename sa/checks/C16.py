from .samp import *
from .. import nf
import functools
import itertools
from fractions import Fraction

TITLE = "Symmetrised states"
SY = "jVMC.util.symmetries."
SW = "jVMC.nets.sym_wrapper."
CI = (0, 1)


# -- specification: group of signed permutations with a one-dimensional representation ------------
def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def compose(g, h):
    """(g h) s = g (h s) for elements (sources, sign): (g s)[i] = sign * s[sources[i]]"""
    return tuple(h[0][i] for i in g[0]), g[1] * h[1]


def closure(gens, n):
    """{element: factor} of the group generated by [(element, factor)], None if the factors are no representation"""
    one = (tuple(range(n)), 1)
    out = {one: (1, 0)}
    todo = [one]
    while todo:
        g = todo.pop()
        for e, f in gens:
            h, c = compose(e, g), cmul(f, out[g])
            if h not in out:
                out[h] = c
                todo.append(h)
            elif out[h] != c:
                return None
    return out


def generators(dim, L, names, fac):
    g = []
    f = {q: fac.get(q, (1, 0)) for q in names}
    if dim == 1:
        if "translation" in names:
            g.append(((tuple((i - 1) % L for i in range(L)), 1), f["translation"]))
        if "reflection" in names:
            g.append(((tuple(L - 1 - i for i in range(L)), 1), f["reflection"]))
    else:
        at = lambda h: tuple(x * L + y for i in range(L) for j in range(L) for x, y in [h(i, j)])
        if "translation" in names:
            g += [((at(lambda i, j: ((i - 1) % L, j)), 1), f["translation"]), ((at(lambda i, j: (i, (j - 1) % L)), 1), f["translation"])]
        if "reflection" in names:
            g += [((at(lambda i, j: (L - 1 - i, j)), 1), f["reflection"]), ((at(lambda i, j: (i, L - 1 - j)), 1), f["reflection"])]
        if "rotation" in names:
            g.append(((at(lambda i, j: (L - 1 - j, i)), 1), f["rotation"]))
    n = L ** dim
    if "spinflip" in names:
        g.append(((tuple(range(n)), -1), f["spinflip"]))
    return g, n


def cval(c):
    return Tensor((), const(c[0]) + nf.I * const(c[1])) if c[1] else Tensor((), const(c[0]))


def elements(I, sym_):
    """[(element, factor term)] of a LatticeSymmetry value; a string describes why it cannot be read"""
    o, f = I.num_of(I.getattr(sym_, "orbit")), I.num_of(I.getattr(sym_, "factor"))
    if o.axes is None or o.rank != 3 or f.axes is None or f.rank != 1:
        return "orbit %s factor %s" % (short(o), short(f))
    t = L.table(o)
    ns = [o.axis_size(q).int_value() for q in range(3)]
    if t is None or None in ns:
        return "orbit entries %s" % short(o)
    out = []
    for q in range(ns[0]):
        rows = {}
        for (a, b, c), x in t.items():
            if a == q:
                rows.setdefault(b, []).append((c, x))
        fq = f.index_axis(0, const(q)).body if f.axes[0] else f.body
        out.append((rows, fq))
    return out, ns, f


def run(ctx):
    thorough = ctx.tier == "thorough"

    def orbit(dim, L, names, fac):
        want, n = generators(dim, L, names, fac)
        want = closure(want, n)
        I = ctx.interp()
        q = SY + ("get_orbit_1D" if dim == 1 else "get_orbit_2D_square")
        r = I.call(fnv(ctx, I, q), [num(L)] + [Const(x) for x in names], {x + "_factor": cval(c) for x, c in fac.items()})
        ctx.done(I)
        e = elements(I, r)
        if isinstance(e, str):
            return dunno(e)
        es, ns, f = e
        lab = "%dD, L=%d, %s, factors %s" % (dim, L, "+".join(names) or "no symmetry", {k: complex(*v) for k, v in fac.items()})
        if ns[1:] != [n, n]:
            return flaw(I, "%s: matrices of size %s" % (lab, ns[1:]))
        if f.axis_size(0).int_value() != ns[0]:
            return flaw(I, "%s: %s factors for %d operations" % (lab, pretty(f.axis_size(0)), ns[0]))
        seen = {}
        for k, (rows, fq) in enumerate(es):
            if any(len(rows.get(i, [])) != 1 for i in range(n)) or {abs(rows[i][0][1]) for i in range(n)} != {1} or len({rows[i][0][1] for i in range(n)}) != 1:
                return flaw(I, "%s: operation %d is no signed permutation" % (lab, k))
            el = (tuple(rows[i][0][0] for i in range(n)), int(rows[0][0][1]))
            if el not in want:
                return flaw(I, "%s: operation %d moves the sites to %s (sign %d), which is not generated by the requested symmetries" % (lab, k, el[0], el[1]))
            if el in seen:
                return flaw(I, "%s: operations %d and %d coincide" % (lab, seen[el], k))
            seen[el] = k
            c = compare(I, Tensor((), fq), cval(want[el]), label="%s: factor of the operation %s" % (lab, el))
            if c.status != HOLDS:
                return c
        if len(seen) != len(want):
            return flaw(I, "%s: %d of %d operations" % (lab, len(seen), len(want)))
        return ok("%d operations" % len(seen))

    ONE_, MIN, IM = (1, 0), (-1, 0), (0, 1)

    def cases():
        for L in (1, 2, 3, 4) + ((5, 6) if thorough else ()):
            for k in range(4):
                for names in itertools.combinations(("translation", "reflection", "spinflip"), k):
                    yield 1, L, names, {}
                    yield 1, L, names[::-1], {x: MIN for x in names}
        yield 1, 5, ("translation",), {}
        yield 1, 4, ("translation",), {"translation": IM}
        yield 1, 4, ("translation", "spinflip"), {"translation": IM, "spinflip": MIN}
        for names in (("translation", "reflection"), ("translation", "reflection", "spinflip")):
            for x in names:
                yield 1, 4, names, {x: MIN}
                yield 1, 3, names, {x: MIN}
        full = ("translation", "reflection", "rotation", "spinflip")
        for k in range(5):
            for names in itertools.combinations(full, k):
                yield 2, 2, names, {x: MIN for x in names}
        for k in ((0, 1, 2, 3, 4) if thorough else (1,)):
            for names in itertools.combinations(full, k):
                if k < 4 or thorough:
                    yield 2, 3, names, {}
        for names in (("reflection", "rotation"), ("rotation", "spinflip")) + ((("translation", "reflection", "rotation"),)):
            for x in names:
                yield 2, 3, names, {x: MIN}
        yield 2, 3, ("rotation",), {"rotation": IM}
        yield 2, 2, ("translation", "rotation"), {"rotation": MIN}
        yield 2, 4, ("rotation", "reflection"), {"rotation": MIN}
        yield 2, 4, ("rotation",), {"rotation": IM}
        if thorough:
            yield 2, 4, ("translation",), {"translation": IM}
            yield 2, 4, ("translation", "spinflip"), {"translation": MIN}

    done = set()
    for dim, L_, names, fac in cases():
        key = "%dd-L%d-%s-%s" % (dim, L_, "+".join(names) or "none", "".join(str(fac.get(x, (1, 0))) for x in names).replace(" ", ""))
        g, n = generators(dim, L_, names, fac)
        if key in done or closure(g, n) is None:
            continue
        done.add(key)
        ctx.ob("orbit/" + key, "symmetry-group", where(ctx, SY + ("get_orbit_1D" if dim == 1 else "get_orbit_2D_square")), lambda a=(dim, L_, names, fac): orbit(*a))

    # -- symmetrised network
    ORB = [((0, 1, 2, 3), 1), ((1, 2, 3, 0), 1), ((3, 2, 1, 0), 1), ((2, 3, 0, 1), -1)]

    def lattice(I, orb=ORB):
        n = len(orb[0][0])
        mats = T_stack([T_stack([T_stack([num(g[1] if g[0][i] == j else 0) for j in range(n)]) for i in range(n)]) for g in orb])
        fac = array("f", [Dim.of_const(len(orb))])
        return I.call(cls(ctx, SY + "LatticeSymmetry"), [mats, fac], {}), fac

    def T_stack(xs):
        return L.T.stack_literal(xs)

    def image(s, g, shape):
        """configuration (0/1 coding) after the operation"""
        n = len(g[0])
        flat = L.T.reshape(s, [const(n)]) if s.rank != 1 else s
        e = [flat.index_axis(0, const(g[0][i])).body for i in range(n)]
        e = [x if g[1] > 0 else ONE - x for x in e]
        t = T_stack([Tensor((), x) for x in e])
        return L.T.reshape(t, [const(x) for x in shape]) if len(shape) > 1 else t

    def plain(I, real=False):
        """the network that is symmetrised"""
        return PyFn(lambda I, a, k: Tensor((), fn("PSI", *[I.num_of(a[0]).index_axis(0, const(i)).body if I.num_of(a[0]).rank == 1 else L.T.reshape(I.num_of(a[0]), [const(4)]).index_axis(0, const(i)).body for i in range(4)], props="r" if real else "")), "net")

    def log_of(I, x):
        return I.num_of(I.call_lib("np.log", [Tensor((), x)], {})).body

    def exp_of(I, x):
        return I.num_of(I.call_lib("np.exp", [Tensor((), x)], {})).body

    def amplitudes(I, s, shape, real):
        net = plain(I, real)
        return [I.num_of(net.f(I, [image(s, g, shape)], {})).body for g in ORB]

    def same_up_to_constant(I, got, want, n, label):
        """|S| times the average is as good as the average"""
        rs = [compare(I, got, Tensor((), w), label=label, seeds=4) for w in (want, want - log_of(I, const(n)))]
        for r in rs:
            if r.status == HOLDS:
                return r
        return rs[0] if all(r.status == VIOLATED for r in rs) else next(r for r in rs if r.status != VIOLATED)

    def avg_spec(I, name, cs, fac):
        n = len(cs)
        if name == "avgFun_Coefficients_Exp":
            return log_of(I, sum((at(fac, k) * exp_of(I, c) for k, c in enumerate(cs)), ZERO))
        if name == "avgFun_Coefficients_Log":
            return sum(cs, ZERO) * const(Fraction(1, n))
        re, im = [L.real_part(c) for c in cs], [L.real_part(-(c * nf.I)) for c in cs]
        amp = log_of(I, sum((exp_of(I, r * 2) for r in re), ZERO) * const(Fraction(1, n))) * const(Fraction(1, 2))
        ph = I.num_of(I.call_lib("np.angle", [Tensor((), sum((exp_of(I, nf.I * p) for p in im), ZERO) * const(Fraction(1, n)))], {})).body
        return amp + nf.I * ph

    def symnet(avg, shape):
        I = ctx.interp()
        lat, fac = lattice(I)
        s = array("s", [Dim.of_const(x) for x in shape], props="rin")
        I.overrides["dtype:s"] = Lib("np.int32")
        kw = dict(orbit=lat, net=plain(I))
        if avg is not None:
            kw["avgFun"] = fnv(ctx, I, SW + avg)
        m = I.call(cls(ctx, SW + "SymNet"), [], kw)
        r = I.num_of(I.call(m, [s], {}))
        ctx.done(I)
        name = avg or "avgFun_Coefficients_Exp"
        want = avg_spec(I, name, amplitudes(I, s, shape, False), fac)
        lab = "SymNet with %s on configurations of shape %s" % (name, shape)
        if name == "avgFun_Coefficients_Exp":
            return same_up_to_constant(I, r, want, len(ORB), lab)
        return compare(I, r, Tensor((), want), label=lab)

    for avg in (None, "avgFun_Coefficients_Exp", "avgFun_Coefficients_Log", "avgFun_Coefficients_Sep"):
        for shape in ((4,), (2, 2)):
            ctx.ob("symnet/%s/%s" % (avg or "default", "x".join(map(str, shape))), "symmetrised-amplitude", where(ctx, SW + "SymNet"), lambda a=avg, s=shape: symnet(a, s))

    def wrapped(avg):
        """NQS(net, orbit=...) evaluates the symmetrised network with the given averaging"""
        I = ctx.interp()
        lat, fac = lattice(I)
        net = make_net(I, False, True, leaves=TINY)
        kw = dict(orbit=lat)
        if avg is not None:
            kw["avgFun"] = fnv(ctx, I, SW + avg)
        psi = I.call(cls(ctx, N), [net], kw)
        w = I.getattr(psi, "net")
        ctx.done(I)
        if not isinstance(w, Ref) or w.cls is None:
            return dunno("network %s" % short(w))
        if w.cls.qual != SW + "SymNet" and w.cls.name != "SymNet":
            return flaw(I, "NQS with an orbit uses the network %s" % w.cls.name)
        if I.getattr(w, "orbit") is not lat and not (isinstance(I.getattr(w, "orbit"), Ref) and I.getattr(w, "orbit").id == lat.id):
            return flaw(I, "NQS does not pass on the orbit")
        if I.getattr(w, "net") is not net:
            return flaw(I, "NQS does not pass on the network")
        f = I.getattr(w, "avgFun")
        cs = array("c", [Dim.of_const(4)])
        r = I.num_of(I.call(f, [cs, fac], {}))
        name = avg or "avgFun_Coefficients_Exp"
        want = avg_spec(I, name, [at(cs, k) for k in range(4)], fac)
        if name == "avgFun_Coefficients_Exp":
            return same_up_to_constant(I, r, want, 4, "averaging of NQS")
        return compare(I, r, Tensor((), want), label="averaging of NQS")
    for avg in (None, "avgFun_Coefficients_Log", "avgFun_Coefficients_Sep"):
        ctx.ob("nqs/%s" % (avg or "default"), "symmetrised-amplitude", where(ctx, N), lambda a=avg: wrapped(a))
    def randomised(g):
        """generated samples are mapped by an operation drawn uniformly from the orbit; case: operation g is drawn"""
        I = ctx.interp()
        I.lib = dict(I.lib)
        draws = []

        def filled(I, key, n, shape, rest):
            draws.append((key, n, rest))
            ax = L.make_axes(L.shp(I, shape))
            return Tensor(ax, const(g))

        def choice(I, a, k):
            src = I.num_of(a[1])
            shape = L.arg(a, k, 2, "shape", Tup([]))
            rest = [x for x in a[3:]] + [v for q, v in k.items() if q != "shape" and not (q == "p" and L.is_none(v)) and not (q == "replace" and I.truth(v) == ONE)]
            if src.axes == ():
                return filled(I, a[0], src.body, shape, rest)
            t = filled(I, a[0], src.axis_size(0), shape, rest)
            row = src.index_axis(0, const(g)).opened()
            return Tensor(list(t.axes) + list(row.axes), row.body)

        def randint(I, a, k):
            lo, hi = I.num_of(L.arg(a, k, 2, "minval")).body, I.num_of(L.arg(a, k, 3, "maxval")).body
            return filled(I, a[0], hi if lo.is_zero() else ONE - 1, L.arg(a, k, 1, "shape"), [])
        I.lib["jax.random.choice"] = functools.partial(choice)
        I.lib["jax.random.randint"] = functools.partial(randint)
        lat, fac = lattice(I)
        net = make_net(I, True, False, gen=True, leaves=TINY)
        net.attrs["__isa__"] = ("SymNet",)
        net.attrs["orbit"] = lat
        raw = {}

        def sample(I, a, k):
            v, x = var(Dim.of_size(I.num_of(a[1]).body)), var(Dim.of_const(4))
            return Tensor([(v,), (x,)], fn("GEN", v.as_poly(), x.as_poly(), I.node(a[2]), props="rin"))
        net.attrs["sample"] = PyFn(sample, "sample")
        old = net.attrs["apply"]
        net.attrs["apply"] = PyFn(lambda I, a, k: sample(I, a, k) if k.get("method") is not None else old.f(I, a, k), "apply")
        psi = I.call(cls(ctx, N), [net], {})
        I.call(I.getattr(psi, "init_net"), [data("s0", "dev", "batch", Dim.of_const(4), props="rin")], {})
        I, psi, smp, log = make_sampler(ctx, gen=True, sites=4, nqs=(I, psi, net))
        r = I.unpack(I.call(I.getattr(smp, "sample"), [], {"numSamples": num(4)}), 3)
        ctx.done(I)
        c = I.num_of(r[0])
        if c.axes is None or c.rank != 3 or c.unk:
            return dunno("configurations %s" % short(c))
        if not draws:
            return flaw(I, "no symmetry operation is drawn for generated samples")
        for key, n, rest in draws:
            if rest:
                return flaw(I, "the operation is not drawn uniformly with replacement")
            z = compare(I, Tensor((), n), num(len(ORB)), label="number of operations the sampler draws from")
            if z.status != HOLDS:
                return z
        gens = {}
        def scan(p):
            for a in p.atoms():
                if a.kind == "fn" and a.name == "GEN":
                    gens[(a.args[0].key, a.args[2].key)] = a
                for x in a.args:
                    if isinstance(x, Poly):
                        scan(x)
        row = c.index_axis(0, V_("dev").as_poly()).index_axis(0, ONE - 1)
        e = [row.index_axis(0, const(i)).body for i in range(4)]
        for p in e:
            scan(p)
        if not gens:
            return dunno("generated configurations %s" % short(c))
        if len(gens) > 1:
            return flaw(I, "one configuration mixes several generated ones")
        a0 = next(iter(gens.values()))
        sv = T_stack([Tensor((), fn("GEN", a0.args[0], const(i), *a0.args[2:], props="rin")) for i in range(4)])
        want = image(sv, ORB[g], (4,))
        res = [compare(I, Tensor((), x), want.index_axis(0, const(i)), label="entry %d of a generated sample after operation %d" % (i, g)) for i, x in enumerate(e)]
        lp = I.num_of(r[1]).index_axis(0, V_("dev").as_poly()).index_axis(0, ONE - 1)
        return conj(res)
    for g in range(len(ORB)):
        ctx.ob("randomised/%d" % g, "symmetrised-sampling", where(ctx, SM + "MCSampler"), lambda g=g: randomised(g))
    ctx.floor("obligations", len(ctx.obs), 60)

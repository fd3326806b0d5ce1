from .nqs import *
from .C16 import generators, closure, elements, cval, SY, SW
from .. import nf

TITLE = "States made from descriptions"
INIT = "jVMC.util.util.init_net"
AF = "jVMC.nets.activation_functions."
NETS = {"RBM": "jVMC.nets.rbm.RBM", "CpxRBM": "jVMC.nets.rbm.CpxRBM", "FFN": "jVMC.nets.ffn.FFN", "CNN": "jVMC.nets.cnn.CNN", "CpxCNN": "jVMC.nets.cnn.CpxCNN",
        "RNN": "jVMC.nets.rnn1d_general.RNN1DGeneral", "RNN2D": "jVMC.nets.rnn2d_general.RNN2DGeneral"}
GENERATORS = ("RNN", "RNN2D")
TWO = "jVMC.nets.two_nets_wrapper.TwoNets"


def run(ctx):
    thorough = ctx.tier == "thorough"

    def value(I, v):
        """Python description -> abstract value"""
        if isinstance(v, dict):
            return pdict(I, {k: value(I, x) for k, x in v.items()})
        if isinstance(v, list):
            return I.list([value(I, x) for x in v])
        if isinstance(v, tuple):
            return Tup([value(I, x) for x in v])
        if isinstance(v, (str, bool)):
            return Const(v)
        if isinstance(v, complex):
            return cval((int(v.real), int(v.imag)))
        return num(v)

    def same(I, v, want, label, fun=False):
        """verdict: abstract value v is the described one; activation functions are compared by what they compute"""
        if fun:
            names = want if isinstance(want, list) else [want]
            fs = I.unpack(v, len(names)) if isinstance(want, list) else [v]
            x = Tensor((), sym("x", props="r"))
            rs = []
            for f, nm in zip(fs, names):
                sp = {"square": lambda: x.body * x.body, "tanh": lambda: I.num_of(I.call_lib("np.tanh", [x], {})).body,
                      "elu": lambda: I.num_of(I.call(Lib("flax.linen.elu"), [x], {})).body, "relu": lambda: I.num_of(I.call(Lib("flax.linen.relu"), [x], {})).body}.get(nm)
                w = sp() if sp else I.num_of(I.call(fnv(ctx, I, AF + nm), [x], {})).body
                g = I.num_of(I.call(f, [x], {}))
                other = [q for q in ("elu", "relu") if q != nm and g.axes == () and g.body.key == fn(q, x.body).key]
                rs.append(flaw(I, "%s: %s is used as activation function %s" % (label, other[0], nm)) if other else
                          compare(I, g, Tensor((), w), label="%s: activation function %s" % (label, nm), seeds=4))
            return conj(rs)
        if isinstance(want, (tuple, list)):
            try:
                xs = I.unpack(v, len(want))
            except Unknown:
                return dunno("%s: %s" % (label, short(v)))
            return conj([same(I, x, w, label) for x, w in zip(xs, want)])
        if isinstance(want, str) or isinstance(want, bool):
            if isinstance(v, Const):
                return ok("equal") if v.val == want else flaw(I, "%s is %r, described as %r" % (label, v.val, want))
            if isinstance(want, bool):
                return compare(I, I.num_of(v), num(int(want)), label=label)
            return dunno("%s: %s" % (label, short(v)))
        return compare(I, I.num_of(v), value(I, want), label=label)

    def network(I, m, d, label):
        """m is the network described by d"""
        if not isinstance(m, Ref) or m.cls is None:
            return dunno("%s %s" % (label, short(m)))
        if m.cls.qual != ctx.prog.cls(NETS[d["type"]]).qual:
            return flaw(I, "%s of type %s is a %s" % (label, d["type"], m.cls.name))
        rs = [same(I, I.getattr(m, k), v, "%s: parameter %s" % (label, k), fun=(k == "actFun")) for k, v in d["parameters"].items()]
        # parameters that are not given keep their defaults
        ref = I.call(cls(ctx, NETS[d["type"]]), [], {})
        for f in fields(I, ref):
            if f not in d["parameters"]:
                a, b = I.getattr(m, f), I.getattr(ref, f)
                try:
                    eq = I.node(a) == I.node(b)
                except Unknown:
                    continue
                if not eq and isinstance(a, (Tensor, Const)):
                    rs.append(compare(I, I.num_of(a), I.num_of(b), label="%s: default of %s" % (label, f)))
        return conj(rs) if rs else ok("no parameters")

    def fields(I, ref):
        import ast as _ast
        return [s.target.id for s in ref.cls.node.body if isinstance(s, _ast.AnnAssign) and isinstance(s.target, _ast.Name)]

    def same_orbit(I, orb, dims, names, fac):
        dim, L_ = len(dims), dims[0]
        g, n = generators(dim, L_, names, fac)
        want = closure(g, n)
        e = elements(I, orb)
        if isinstance(e, str):
            return dunno(e)
        es, ns, f = e
        if ns[1:] != [n, n]:
            return flaw(I, "orbit of matrices of size %s for %s sites" % (ns[1:], n))
        if ns[0] != len(want):
            return flaw(I, "orbit of %d operations, %d described (%s)" % (ns[0], len(want), ", ".join(names) or "none"))
        rs = []
        for k, (rows, fq) in enumerate(es):
            if any(len(rows.get(i, [])) != 1 for i in range(n)):
                return flaw(I, "operation %d is no signed permutation" % k)
            el = (tuple(rows[i][0][0] for i in range(n)), int(rows[0][0][1]))
            if el not in want:
                return flaw(I, "operation %d is not generated by the described symmetries (%s)" % (k, ", ".join(names) or "none"))
            rs.append(compare(I, Tensor((), fq), cval(want[el]), label="factor of the operation %s" % (el,)))
        return conj(rs)

    def averaging(I, f, sep):
        c, w = array("c", [Dim.of_const(3)]), array("f", [Dim.of_const(3)])
        r = I.num_of(I.call(f, [c, w], {}))
        name = "avgFun_Coefficients_Sep" if sep else "avgFun_Coefficients_Exp"
        return compare(I, r, I.num_of(I.call(fnv(ctx, I, SW + name), [c, w], {})), label="averaging (%s)" % name, seeds=4)

    def described(descr, dims, seed, names=(), fac={}, times=1):
        I = ctx.interp()
        I.lib = dict(I.lib)
        made = []

        def record(I, a, k):
            made.append((a[0], a[1:]))
            return NONE
        I.overrides[N + ".__call__"] = PyFn(record, "__call__")
        I.overrides[N + ".init_net"] = PyFn(record, "init_net")
        d = value(I, descr)
        rs = []
        for t in range(times):
            del made[:]
            psi = I.call(fnv(ctx, I, INIT), [d, Tup([num(x) for x in dims])] + ([num(seed)] if seed is not None else []), {})
            lab = "" if t == 0 else "second use of the description: "
            if not isinstance(psi, Ref) or psi.cls is None:
                return dunno("result %s" % short(psi))
            if psi.cls.qual != ctx.prog.cls(N).qual:
                return flaw(I, "the result is no variational state but %s" % psi.cls.name)
            rs.append(same(I, I.getattr(psi, "batchSize"), descr["batch_size"], lab + "batch size"))
            if seed is not None:
                rs.append(same(I, I.getattr(psi, "seed"), seed, lab + "seed"))
            if not any(x is psi or (isinstance(x, Ref) and x.id == psi.id) for x, _ in made):
                rs.append(flaw(I, lab + "the state is not initialised"))
            for x, a in made:
                s = I.num_of(a[0])
                if s.axes is None:
                    return dunno("configuration used for initialisation")
                shape = [s.axis_size(q).int_value() for q in range(2, s.rank)]
                if shape != list(dims):
                    rs.append(flaw(I, lab + "initialised for configurations of shape %s" % shape))
            w = I.getattr(psi, "net")
            if not isinstance(w, Ref) or w.cls is None:
                return dunno("network %s" % short(w))
            sn = ctx.prog.cls(SW + "SymNet").qual
            if w.cls.qual != sn:
                rs.append(flaw(I, lab + "the network %s is not symmetrised" % w.cls.name))
                continue
            rs.append(same_orbit(I, I.getattr(w, "orbit"), dims, names, fac))
            gen = descr["net1"]["type"] in GENERATORS
            rs.append(averaging(I, I.getattr(w, "avgFun"), gen))
            m = I.getattr(w, "net")
            if "net2" in descr:
                if not isinstance(m, Ref) or m.cls is None:
                    return dunno("network %s" % short(m))
                if m.cls.qual != ctx.prog.cls(TWO).qual:
                    rs.append(flaw(I, lab + "two networks described, but the state has %s" % m.cls.name))
                    continue
                a, b = I.unpack(I.getattr(m, "nets"), 2)
                rs += [network(I, a, descr["net1"], lab + "net1"), network(I, b, descr["net2"], lab + "net2")]
            else:
                rs.append(network(I, m, descr["net1"], lab + "net1"))
            rs.append(compare(I, Tensor((), I.truth(I.getattr(psi, "is_generator"))), num(int(gen)), label=lab + "availability of direct sampling"))
            rs.append(unchanged(I, d, descr, "description"))
        ctx.done(I)
        return conj(rs)

    def unchanged(I, v, want, label):
        if isinstance(want, dict):
            if not isinstance(v, Ref) or v.kind != "dict":
                return flaw(I, "%s was replaced by %s" % (label, short(v)))
            c = I.content(v)
            if set(c) != {("s", k) for k in want}:
                return flaw(I, "keys of %s changed to %s" % (label, sorted(str(k[1]) for k in c)))
            return conj([unchanged(I, c[("s", k)], x, "%s[%r]" % (label, k)) for k, x in want.items()] or [ok("empty")])
        if isinstance(want, (list, tuple)):
            if not (isinstance(v, Tup) or isinstance(v, Ref) and v.kind == "list"):
                return flaw(I, "%s was replaced by %s" % (label, short(v)))
            xs = I.unpack(v, len(want))
            return conj([unchanged(I, x, w, label) for x, w in zip(xs, want)] or [ok("empty")])
        if isinstance(want, str) and not isinstance(v, Const):
            return flaw(I, "%s was replaced by %s" % (label, short(v)))
        return same(I, v, want, label)

    W = where(ctx, INIT)
    M1, IM = (-1, 0), (0, 1)
    P = dict
    nets = {
        "RBM": P(type="RBM", parameters=P(numHidden=3, bias=True)),
        "CpxRBM": P(type="CpxRBM", parameters=P(numHidden=2, bias=False)),
        "FFN": P(type="FFN", parameters=P(layers=(3, 2), bias=True, actFun=["tanh", "poly5"])),
        "CNN": P(type="CNN", parameters=P(F=(2,), channels=(2, 3), strides=(1,), bias=True, firstLayerBias=True, periodicBoundary=False, actFun=["elu", "relu"])),
        "CpxCNN": P(type="CpxCNN", parameters=P(F=(2,), channels=(1,), strides=(1,), bias=False, actFun=["poly6"])),
        "RNN": P(type="RNN", parameters=P(L=3, hiddenSize=4, depth=2, inputDim=2, actFun="tanh", cell="LSTM", logProbFactor=1, realValuedOutput=True)),
        "RNN2D": P(type="RNN2D", parameters=P(L=2, hiddenSize=3, depth=1, inputDim=2, actFun="square", cell="RNN", realValuedParams=True)),
    }
    plain = {"RBM": P(type="RBM", parameters=P())}

    def D(n1, n2=None, batch=17, **sym_):
        import copy
        d = {"batch_size": batch, "net1": copy.deepcopy(n1)}
        if n2 is not None:
            d["net2"] = copy.deepcopy(n2)
        d.update(sym_)
        return d
    for nm, d in nets.items():
        dims = (2, 2) if nm == "RNN2D" else (3,)
        ctx.ob("network/%s" % nm, "described-state", W, lambda d=d, dims=dims: described(D(d), dims, 5))
    ctx.ob("network/defaults", "described-state", W, lambda: described(D(plain["RBM"], batch=3), (2,), None))
    for a, b in (("FFN", "CNN"), ("RNN", "FFN"), ("CNN", "RBM"), ("RBM", "FFN")):
        ctx.ob("two/%s-%s" % (a, b), "described-state", W, lambda a=a, b=b: described(D(nets[a], nets[b]), (3,), 1))
    syms = [((4,), ("translation",), {}), ((4,), ("translation",), {"translation": IM}), ((4,), ("translation", "reflection"), {"translation": M1}), ((3,), ("reflection",), {"reflection": M1}),
            ((4,), ("translation", "reflection", "spinflip"), {"spinflip": M1}), ((3,), ("spinflip",), {}), ((2, 2), ("translation",), {"translation": M1}), ((3, 3), ("rotation",), {"rotation": IM}),
            ((3, 3), ("rotation", "reflection"), {"rotation": M1}), ((2, 2), ("translation", "rotation", "reflection", "spinflip"), {"spinflip": M1, "rotation": M1}), ((3, 3), ("spinflip", "reflection"), {}), ((2, 2), (), {})]
    for dims, names, fac in syms:
        key = "%s-%s-%s" % ("x".join(map(str, dims)), "+".join(names) or "none", "".join(str(fac.get(x, (1, 0))) for x in names).replace(" ", ""))
        kw = {x: True for x in names}
        kw.update({x + "_factor": complex(*c) for x, c in fac.items()})
        if closure(*generators(len(dims), dims[0], names, fac)) is None:
            raise ValueError(key)
        ctx.ob("symmetry/" + key, "described-state", W, lambda a=(D(nets["CpxRBM"], **kw), dims, 2, names, fac): described(*a))
    ctx.ob("symmetry/generator", "described-state", W, lambda: described(D(nets["RNN"], translation=True, spinflip=True, spinflip_factor=-1), (3,), 2, ("translation", "spinflip"), {"spinflip": M1}))
    for a, b in (("FFN", None), ("RNN", None), ("CNN", "FFN")):
        ctx.ob("again/%s" % "-".join(x for x in (a, b) if x), "reusable-description", W, lambda a=a, b=b: described(D(nets[a], nets[b] if b else None), (3,), 1, times=2))
    ctx.floor("obligations", len(ctx.obs), 25)

from .nqs import *

TITLE = "Parameter vector and network parameters stay in one-to-one correspondence"


def entries(I, treev, real):
    """all real degrees of freedom of a parameter tree: list of (leaf, index, part, term)"""
    out = []
    fl = []
    L.collect(I, treev, fl)
    import itertools
    for l in fl:
        for ix in itertools.product(*[range(l.axis_size(k).int_value()) for k in range(l.rank)]):
            e = at(l, *ix)
            if real:
                out.append(e)
            else:
                out.append(L.real_part(e))
                out.append(L.imag_part(e))
    return out


def run(ctx):
    for real in (True, False):
        rn = "real" if real else "complex"

        def layout(real=real):
            """the vector contains every real degree of freedom exactly once"""
            rs = []
            for other in (False, True):
                I, psi, net = make_nqs(ctx, real, other=other)
                p = I.call(I.getattr(psi, "get_parameters"), [], {})
                es = entries(I, I.getattr(psi, "params"), real)
                v = vec(I, p)
                ctx.done(I)
                if v is None:
                    return dunno("parameter vector %s" % short(p))
                if any(x.unk for x in v):
                    return dunno("parameter vector %s" % short(p))
                if len(v) != len(es):
                    return flaw(I, "the parameter vector has %d entries, the network %d real parameters" % (len(v), len(es)))
                np_ = compare(I, I.getattr(psi, "numParameters"), num(len(v) if real else len(v) // 2), label="numParameters")
                if np_.status != HOLDS:
                    return np_
                got, want = sorted(x.key for x in v), sorted(x.key for x in es)
                if got != want:
                    miss = [x for x in es if x.key not in got]
                    return flaw(I, "not every parameter occurs once in the vector, e.g. %s" % (pretty(miss[0]) if miss else "a duplicate"))
            return ok("%d parameters" % len(es))
        ctx.ob("layout/" + rn, "parameter-bijection", where(ctx, N + ".get_parameters"), layout)

        def setget(real=real, how="set"):
            """get after set returns the vector; set of get restores the tree; update adds; other collections untouched"""
            rs = []
            for other in (False, True):
                I, psi, net = make_nqs(ctx, real, other=other)
                get = lambda: I.call(I.getattr(psi, "get_parameters"), [], {})
                p0 = get()
                n = len(vec(I, p0))
                old = I.content(I.getattr(psi, "parameters"))
                before = {k: I.node(v) for k, v in old.items() if k != ("s", "params")}
                if how == "set":
                    P = array("P", [Dim.of_const(n)], props="r")
                    I.call(I.getattr(psi, "set_parameters"), [P], {})
                    rs.append(compare(I, get(), P, label="vector after set_parameters"))
                    # twice
                    P2 = array("Q", [Dim.of_const(n)], props="r")
                    I.call(I.getattr(psi, "set_parameters"), [P2], {})
                    rs.append(compare(I, get(), P2, label="vector after second set_parameters"))
                elif how == "restore":
                    t0 = I.node(I.getattr(psi, "parameters"))
                    P = array("P", [Dim.of_const(n)], props="r")
                    I.call(I.getattr(psi, "set_parameters"), [P], {})
                    I.call(I.getattr(psi, "set_parameters"), [p0], {})
                    t1 = I.getattr(psi, "parameters")
                    rs.append(compare_tree(I, t1, real, other))
                elif how == "update":
                    D, E_ = array("D", [Dim.of_const(n)], props="r"), array("E", [Dim.of_const(n)], props="r")
                    I.call(I.getattr(psi, "update_parameters"), [D], {})
                    v0 = L.elementwise(lambda a, b: a + b, I.num_of(p0), D)
                    rs.append(compare(I, get(), v0, label="vector after update_parameters"))
                    I.call(I.getattr(psi, "update_parameters"), [E_], {})
                    rs.append(compare(I, get(), L.elementwise(lambda a, b: a + b, v0, E_), label="vector after second update"))
                new = I.content(I.getattr(psi, "parameters"))
                after = {k: I.node(v) for k, v in new.items() if k != ("s", "params")}
                if {k: v.key for k, v in before.items()} != {k: v.key for k, v in after.items()}:
                    rs.append(bad("variables outside of the parameter collection are changed") if not I.tainted else dunno("other collections"))
                ctx.done(I)
            return conj(rs)
        for how in ("set", "restore", "update"):
            ctx.ob("%s/%s" % (how, rn), "parameter-bijection", where(ctx, N + (".update_parameters" if how == "update" else ".set_parameters")), lambda r=real, h=how, f=setget: f(r, h))

        def evaluation(real=real):
            """evaluation, sampler function and sampling see the parameters that were set"""
            rs = []
            log = []
            I, psi, net = make_nqs(ctx, real, gen=True, log=log)
            n = len(vec(I, I.call(I.getattr(psi, "get_parameters"), [], {})))
            s = data("s", "dev", "batch", "site", props="rin")
            key = array("key", ["dev"], kind="key")
            for q in range(2):
                P = array("P%d" % q, [Dim.of_const(n)], props="r")
                I.call(I.getattr(psi, "set_parameters"), [P], {})
                cur = I.node(I.getattr(psi, "parameters")).key
                for what in ("call", "sampler", "sample", "gradients"):
                    del log[:]
                    if what == "call":
                        I.call(psi, [s], {})
                    elif what == "sampler":
                        f, pp = I.unpack(I.call(I.getattr(psi, "get_sampler_net"), [], {}), 2)
                        row = array("row", ["site"], props="rin")
                        I.call(f, [pp, row], {})
                    elif what == "sample":
                        I.call(I.getattr(psi, "sample"), [num(4), key], {})
                    else:
                        I.call(I.getattr(psi, "gradients"), [s], {})
                    if not log:
                        rs.append(dunno("%s does not reach the network" % what))
                    for a, k in log:
                        if I.node(a[0]).key != cur:
                            rs.append(bad("%s after set_parameters uses outdated parameters" % what) if not I.tainted and not I.node(a[0]).unk else dunno("%s parameters" % what))
            ctx.done(I)
            return conj(rs)
        ctx.ob("current/" + rn, "parameter-currency", where(ctx, N + ".set_parameters"), evaluation)
    ctx.floor("obligations", len(ctx.obs), 10)


def compare_tree(I, got, real, other):
    want = full_tree(I, real, "", other)
    fa, fb = [], []
    L.collect(I, got, fa)
    L.collect(I, want, fb)
    if len(fa) != len(fb):
        return flaw(I, "restored tree has %d leaves instead of %d" % (len(fa), len(fb)))
    ka, kb = paths(I, got), paths(I, want)
    if ka != kb:
        return flaw(I, "restored tree has structure %s instead of %s" % (ka, kb))
    return conj([compare(I, a, b, label="restored leaf") for a, b in zip(fa, fb)])


def paths(I, v):
    if isinstance(v, Ref) and v.kind == "dict":
        c = I.content(v)
        return {str(k): paths(I, c[k]) for k in sorted(c, key=str)}
    return None

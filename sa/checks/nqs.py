"""a variational state over an arbitrary network: parameters are a tree of symbolic arrays, the network an uninterpreted function"""
from .common import *

VQS = "jVMC.vqs."
N = VQS + "NQS"
# parameter tree of the stub network: nested collections, several ranks, names whose order differs from the order of definition
LEAVES = [("z_last", "kernel", (2, 3)), ("z_last", "bias", (3,)), ("a_first", "kernel", (3, 1, 2)), ("m_scalar", "value", ())]


def leaf(name, shape, real, tag=""):
    t = array("%s%s" % (tag, name), [Dim.of_const(n) for n in shape], props="r" if real else "")
    return t


def tree(I, real, tag="", leaves=LEAVES, **extra):
    d = {}
    for top, sub, shape in leaves:
        d.setdefault(top, {})[sub] = leaf("%s.%s" % (top, sub), shape, real, tag)
        I.overrides["dtype:%s%s.%s" % (tag, top, sub)] = Lib("np.float64" if real else "np.complex128")
    return I.dict({("s", k): I.dict({("s", q): x for q, x in v.items()}) for k, v in d.items()})


def full_tree(I, real, tag="", other=False, leaves=LEAVES):
    d = {("s", "params"): tree(I, real, tag, leaves)}
    if other:
        d[("s", "cache")] = I.dict({("s", "c"): Tensor((), sym("cache", props="r"))})
        I.overrides["dtype:cache"] = Lib("np.float64" if real else "np.complex128")
    return I.dict(d)


def net_diff(holo):
    def d(a, leaf, ix, c):
        if holo:
            r = fn("NETd", leaf_node(leaf), *ix, *a.args)
            r = r if c == "x" else r.scale(CQ(0, 1))
        else:
            r = fn("NETd" + c, leaf_node(leaf), *ix, *a.args)
        return r.conjugate() if a.conj else r
    return d


def leaf_node(l):
    return l if l.rank else l.body


def make_net(I, real, holo, gen=False, other=False, log=None, leaves=LEAVES, outreal=False):
    """flax module stub"""
    def apply(I, a, k):
        m = k.get("method")
        if log is not None:
            log.append((a, k))
        if m is not None:
            nm = m.name if isinstance(m, PyFn) else "?"
            return Tensor((), fn("NET:" + nm, *[I.node(x) for x in a])) if nm == "eval_real" else sample(I, a, k)
        return Tensor((), fn("NET", I.node(a[0]), *[I.node(x) for x in a[1:]], props="r" if outreal else ""))

    def sample(I, a, k):
        v, x = var(Dim.of_size(I.num_of(a[1]).body)), V_("site")
        return Tensor([(v,), (x,)], fn("GEN", v.as_poly(), x.as_poly(), I.node(a[0]), I.node(a[1]), I.node(a[2]), props="rin"))

    def init(I, a, k):
        return full_tree(I, real, "", other, leaves)
    I.diff_fns = {"NET": net_diff(holo)}
    at = {"apply": PyFn(apply, "apply"), "init": PyFn(init, "init")}
    at["sample"] = PyFn(sample, "sample") if gen else None
    at["eval_real"] = None
    at["__isa__"] = ()
    return StubObj("net", at)


def norm_zero(I, a, k):
    """closeness to zero of a norm: only identically vanishing terms are zero (generic parameters)"""
    x, y = I.num_of(a[0]), I.num_of(a[1])
    if x.axes == () and y.axes == ():
        d = x.body - y.body
        return Const(bool(d.is_zero() or nf.equal(d, ZERO)))
    raise Unknown("isclose of arrays")


def make_nqs(ctx, real, holo=False, batch=None, init=True, **kw):
    I = ctx.interp()
    I.lib = dict(I.lib)
    I.lib["math.isclose"] = norm_zero
    I.lib["np.isclose"] = norm_zero
    I.lib["np.allclose"] = lambda I, a, k: norm_zero(I, a, k)
    net = make_net(I, real, holo, **kw)
    psi = I.call(cls(ctx, N), [net], {} if batch is None else {"batchSize": num(batch)})
    if init:
        s = data("s0", "dev", "batch", "site", props="rin")
        I.call(I.getattr(psi, "init_net"), [s], {})
    return I, psi, net


def vec(I, v):
    """value -> list of scalar terms, or None"""
    t = I.num_of(v) if not isinstance(v, Tensor) else v
    if t.axes is None or t.rank != 1:
        return None
    n = t.axis_size(0).int_value()
    if n is None:
        return None
    return [t.index_axis(0, const(i)).body for i in range(n)]


def leaves_of(I, psi):
    t = I.getattr(psi, "params")
    return t

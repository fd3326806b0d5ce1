from .nqs import *

TITLE = "Batched evaluation is independent of the batch size"
GRID = [(1, 1), (3, 1), (3, 2), (4, 2), (5, 2), (3, 4), (5, 3), (6, 3), (7, 3), (2, 1000)]
SMALL = [("w", "kernel", (2,)), ("c", "value", ())]


def run(ctx):
    def state(n, b, holo=False, real=True):
        I, psi, net = make_nqs(ctx, real, holo, batch=b, leaves=SMALL)
        s = data("s", "dev", Dim.of_const(n), "site", props="rin")
        r = I.call(psi, [s], {})
        ctx.done(I)
        d, k = V_("dev"), var(Dim.of_const(n))
        row = s.index_axis(0, d.as_poly()).index_axis(0, k.as_poly())
        return compare(I, r, T([d, k], fn("NET", I.node(I.getattr(psi, "parameters")), I.node(row))), label="evaluation of %d configurations in batches of %d" % (n, b), sizes=dict(site=2))

    def gradient(n, b):
        """every row equals the gradient computed for that configuration alone"""
        out = []
        for real, holo in ((True, False), (False, True)):
            I, psi, net = make_nqs(ctx, real, holo, batch=b, leaves=SMALL)
            s = data("s", "dev", Dim.of_const(n), "site", props="rin")
            g = I.num_of(I.call(I.getattr(psi, "gradients"), [s], {}))
            if g.axes is None or g.unk:
                return dunno("gradients %s" % short(g))
            if g.rank != 3:
                return flaw(I, "gradients of rank %d" % g.rank)
            size = compare(I, Tensor((), g.axis_size(1)), num(n), label="number of gradients of %d configurations in batches of %d" % (n, b))
            if size.status != HOLDS:
                return size
            for k in range(n):
                one = I.num_of(I.call(I.getattr(psi, "gradients"), [L.take_range(s, 1, const(k), const(1), ONE)], {}))
                out.append(compare(I, g.index_axis(1, const(k)), one.index_axis(1, ZERO), label="gradient %d of %d in batches of %d" % (k, n, b), sizes=dict(site=2)))
            ctx.done(I)
        return conj(out)

    def helper(n, b):
        I = ctx.interp()
        s = array("c", [Dim.of_const(n), "site"], props="rin")
        f = PyFn(lambda I, a, k: Tensor((), fn("F", I.node(a[0]))), "f")
        r = I.call(fnv(ctx, I, VQS + "eval_batched"), [num(b), f, s], {})
        k = var(Dim.of_const(n))
        ctx.done(I)
        return compare(I, r, T([k], fn("F", I.node(s.index_axis(0, k.as_poly())))), label="eval_batched of %d in batches of %d" % (n, b), sizes=dict(site=2))

    for n, b in GRID:
        ctx.ob("evaluation/%d-by-%d" % (n, b), "batch-independence", where(ctx, N + ".__call__"), lambda n=n, b=b: state(n, b))
        ctx.ob("gradients/%d-by-%d" % (n, b), "batch-independence", where(ctx, N + ".gradients"), lambda n=n, b=b: gradient(n, b))
        ctx.ob("eval_batched/%d-by-%d" % (n, b), "batch-independence", where(ctx, VQS + "eval_batched"), lambda n=n, b=b: helper(n, b))
    ctx.floor("obligations", len(ctx.obs), 30)

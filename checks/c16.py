"""C16: operations are written only under a header that describes them."""
from base import *
from opsem import Ops, MAXOP
import contracts

W = "smdiff_writer"
MAXWIN = (1 << 24) - 1


def run(ck):
    ck.section("sums", sums, ck)
    ck.section("op-limit", oplimit, ck)
    return dict(rule="write_ops returns Ok only if the header's operation count, output size and (segregated) add byte count are those of the operations, "
                     "the output size is within the section limit and no Add exceeds the per-operation limit",
                assumptions=["Run lengths are 1..=62 and no operation is empty (asserted by the writer: the caller's contract)"])


def setup(ck, names, n=None):
    I = ck.interp(400)
    contracts.use_varints(ck, I)
    contracts.use_deltas(ck, I)
    O = Ops(ck)
    O.attach(I, names)
    fn = ck.fn(W, "write_ops")
    h = ck.adt("smdiff_common", "SectionHeader")
    hi = {n: i for i, (n, _, _) in enumerate(h.variants[0][2])}
    st = State()
    hv = I.opaque_val(("h",), mkty("adt", path=h.path))
    hc = ("cell", "hdr")
    st.mem[hc] = hv
    sid = ("out", "stream")
    wc = ("cell", "wr")
    st.mem[wc] = ("O", sid, mkty("param", name="W"))
    return I, O, fn, hi, st, hv, hc, wc


def both(I, st, hv, hi, run):
    """Runs once per format."""
    for s, _ in I.variants(st.copy(), I.proj(st, hv, hi["format"])):
        yield from run(s)


def sums(ck):
    I, O, fn, hi, st, hv, hc, wc = setup(ck, ("oal", "adds"))
    oc, n, ct = O.seq(I, st, "ops")
    f = lambda s, k: I.proj(s, hv, hi[k])
    oks = 0
    for s, v in both(I, st, hv, hi, lambda st: I.call_fn(st, fn, [("S", oc, (), ZERO, n), ref(hc), ref(wc)], genv(fn))):
        if not is_ok(v):
            continue
        oks += 1
        oal = I.qsum(s, O.ty(), ct, n, ("oal", None))
        adds = I.qsum(s, O.ty(), ct, n, ("adds", None))
        ck.cond(I, s, "count", ("ceq", f(s, "num_operations").sub(n)), "operations are written under a header with another operation count")
        ck.cond(I, s, "output", ("ceq", f(s, "output_size").sub(oal)), "operations are written under a header with another output size")
        ck.cond(I, s, "max", ("cge", L(MAXWIN).sub(oal)), "a section larger than the format's limit is written")
        fmt = hv[3][hi["format"]] if hv[0] == "A" else I.proj(s, hv, hi["format"])
        k = s.var.get(fmt[1]) if fmt[0] == "O" else fmt[2]
        for s2, w in (I.variants(s.copy(), fmt) if k is None else [(s, None)]):
            k2 = w[2] if w is not None else k
            if k2 == 1:
                ck.cond(I, s2, "adds", ("ceq", f(s2, "num_add_bytes").sub(adds)), "segregated operations are written under a header with another add byte count")
    ck.count("accepting exits", oks)
    ck.floor("accepting exits", 1)
    ck.done(I)


def oplimit(ck):
    I, O, fn, hi, st, hv, hc, wc = setup(ck, ("oal",))
    I.force_unroll, I.unroll_width = 6, 1200
    for n in (1, 2):
        s0 = st.copy()
        oc = ("cell", ("list", n))
        ops = tuple(("O", ("op", i), O.ty()) for i in range(n))
        s0.mem[oc] = ("Q", O.ty(), L(n), ("e", ops))
        m = 0
        for s, v in both(I, s0, hv, hi, lambda st: I.call_fn(st, fn, [("S", oc, (), ZERO, L(n)), ref(hc), ref(wc)], genv(fn))):
            if not is_ok(v):
                continue
            for i, o in enumerate(ops):
                k = O.variant(s, o)
                if k == O.v["Add"]:
                    m += 1
                    ln = O.addlen(I, s, I.proj(s, I.expand(o, k), 0))
                    ck.cond(I, s, "add-limit", ("cge", L(MAXOP).sub(ln)), "an Add longer than the format allows for one operation is written")
                elif k is None:
                    ck.undecided("add-limit", "an operation whose kind was never looked at is written")
        ck.count("written Adds of lists of %d" % n, m)
        ck.floor("written Adds of lists of %d" % n, 1)
    ck.done(I)

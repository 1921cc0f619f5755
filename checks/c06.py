"""C06: what a patch claims does not decide how much memory reading it takes."""
from base import *
from opsem import Ops
import c05, contracts

R, D, C = "smdiff_reader", "smdiff_decoder", "smdiff_common"
MOST = (1 << 24) - 1


def run(ck):
    ck.section("read_section_header", c05_part, ck, c05.header)
    ck.section("read_ops_no_comp", ops, ck)
    ck.section("read_op", c05_part, ck, c05.op)
    ck.section("read_section", c05_part, ck, c05.section)
    for name in ("next_borrowed", "next"):
        ck.section("reader iterator: " + name, c05_part, ck, c05.iterator, R, name)
        ck.section("decoder iterator: " + name, c05_part, ck, c05.iterator, D, name)
    ck.section("apply_no_sec_comp", c05_part, ck, c05.nested)
    for src in (False, True):
        ck.section("apply_patch, %s source" % ("with" if src else "no"), c05_part, ck, c05.apply, src)
    ck.floor("requests for memory", 3)
    ck.floor("operations collected", 4)
    return dict(rule="every buffer that reading or applying a patch asks for has at most 2^24-1 bytes (the largest section of the format) whatever the stream contains, none is read to an end the stream "
                     "decides; while operations are collected, the Add buffers already held never exceed the section's output size (nor 2^24-1 bytes) and there are never more operations than bytes were read",
                assumptions=["copies of what is already held (clone, to_vec) are proportional to it", "the external decompressors bound their own buffers"])


class Watched:
    """A view of the check under which another check's sections run: only requests for memory are judged."""

    def __init__(self, ck):
        self.__dict__["ck"] = ck

    def __getattr__(self, k):
        return getattr(self.ck, k)

    def interp(self, *a, **kw):
        I = self.ck.interp(*a, **kw)
        watch(self.ck, I)
        return I

    def ok(self, key, n=1):
        pass

    def bad(self, key, text=""):
        pass

    def ob(self, v, key, text=""):
        pass

    def cond(self, I, st, key, c, text):
        pass

    def undecided(self, key, text=""):
        self.ck.undecided(key, text)

    def count(self, name, n=1):
        pass

    def done(self, I):
        self.ck.done(I)


def watch(ck, I):
    def alloc(I, st, n, et, site, how):
        if how in ("clone", "to_vec"):
            return
        if not isinstance(n, Lin):
            return
        ck.count("requests for memory")
        k = max(1, size(I.p, et))
        ck.cond(I, st, "request:" + how, ("cge", L(MOST).sub(n.scale(k))), "%s of a number of elements of %d bytes or more that the patch decides, at %s" % (how, k, where(I, site)))

    def unbounded(I, st, sid, site):
        ck.ob(None if models.state_tainted(I, st) else False, "request:read to the end", "a stream is read to its end into memory at %s" % where(I, site))
    I.hooks["alloc"] = I.hooks.get("alloc", []) + [alloc]
    I.hooks["alloc_unbounded"] = I.hooks.get("alloc_unbounded", []) + [unbounded]


def size(P, t, depth=4):
    """Bytes a value of type t takes at least (no padding, no tags)."""
    if t is None or depth == 0:
        return 0
    if t.is_int():
        return t.rng()[2] // 8
    if t.k in ("ref", "ptr", "fnptr"):
        return 8
    if t.k == "tuple":
        return sum(size(P, a, depth - 1) for a in t.args)
    if t.k == "adt":
        if t.path.endswith("::Vec") or t.path.endswith("::String"):
            return 24
        a = P.adts.get(t.path)
        if a is not None and a.full and a.kind in ("struct", "enum"):
            return max([sum(size(P, f, depth - 1) for f in P.adt_fields(t, i)) for i in range(len(a.variants))] or [0])
    return 0


def where(I, site):
    try:
        return I.where()
    except Exception:
        return str(site)


def c05_part(ck, f, *a):
    f(Watched(ck), *a)


def ops(ck):
    I, O, st, c = c05.start(Watched(ck))
    fn = ck.fn(R, "read_ops_no_comp")
    hc = ("cell", "hdr")
    st.mem[hc] = I.opaque_val(("h",), mkty("adt", path=ck.adt(C, "SectionHeader").path))
    hi = {m: i for i, (m, _, _) in enumerate(ck.adt(C, "SectionHeader").variants[0][2])}
    h0 = st.mem[hc] if st.mem[hc][0] == "A" else I.expand(st.mem[hc], 0)
    out = I.proj(st, h0, hi["output_size"])
    st.f.assume_ge0(out.sub(I.proj(st, h0, hi["num_add_bytes"])))
    ob = c05.buf(ck, O, st)
    q0 = I.read(st, ob, ())
    oal0 = I.qsum(st, q0[1], q0[3], q0[2], I.measures[O.isop][0])
    adds0 = I.qsum(st, q0[1], q0[3], q0[2], I.measures[O.isop][1])
    pos0 = contracts.getpos(I, st, ("in", "stream"))

    def push(I, st, q, x, site, v):
        if not O.isop(q[1]):
            return
        ck.count("operations collected")
        s = I.qsum(st, q[1], q[3], q[2], I.measures[O.isop][1])
        a = O.adds(I, st, x)
        if s is None or a is None:
            ck.undecided("collected:adds", "the Add buffers are not followed")
            return
        l, ol = I.qsum(st, q[1], q[3], q[2], I.measures[O.isop][0]), O.oal(I, st, x)
        if not I.confirm and l is not None and ol is not None and I.decide(st, ("cge", L(MOST).sub(l.sub(oal0)).sub(ol))) is True:
            ck.ob(True, "collected:adds", "")  # an Add is as long as its output
        else:
            # what is already held was found to fit the section (the operation at hand may not have been looked at yet)
            ck.cond(I, st, "collected:adds", ("cge", out.sub(s.sub(adds0))), "operations are still collected although their Add buffers outgrow the section's output size")
        p = contracts.getpos(I, st, ("in", "stream"))
        ck.cond(I, st, "collected:count", ("cge", p.sub(pos0).sub(q[2].sub(q0[2])).sub(1)), "operations are collected that no byte was read for")
    I.hooks["push"] = [push]
    I.call_fn(st, fn, [ref(c), ref(hc), ref(ob)], genv(fn))
    ck.done(I)

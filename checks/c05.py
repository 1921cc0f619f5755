"""C05: reading and applying a patch never panics, whatever the bytes."""
from base import *
from opsem import Ops
import contracts

R, D, C = "smdiff_reader", "smdiff_decoder", "smdiff_common"


def run(ck):
    for name in ("read_u_varint", "read_i_varint", "read_u8", "read_u16"):
        ck.section(name, prim, ck, name)
    ck.section("read_section_header", header, ck)
    ck.section("apply_no_sec_comp", nested, ck)
    ck.section("read_ops_no_comp", ops, ck)
    ck.section("read_op", op, ck)
    ck.section("read_section", section, ck)
    for name in ("next_borrowed", "next"):
        ck.section("reader iterator: " + name, iterator, ck, R, name)
        ck.section("decoder iterator: " + name, iterator, ck, D, name)
    for src in (False, True):
        ck.section("apply_patch, %s source" % ("with" if src else "no"), apply, ck, src)
    return dict(rule="no panic site (arithmetic overflow, slice/array bounds, unwrap/expect, explicit panic, assertion, shift, division) is reachable from the reading entry points "
                     "on any stream content and any I/O outcome",
                assumptions=["the caller's Read/Seek/Write implementations and the external decompressors do not panic themselves",
                             "streams are shorter than 2^63 bytes; total output below 2^63 bytes", "each layer is decided on its own: read_ops_no_comp and the section iterators are used by contract in the layers above"])


def start(ck, con=True, readops=False, sections=False, nested=False):
    I = ck.interp(400)
    O = Ops(ck)
    if con:
        contracts.use_varints(ck, I)
        contracts.use_deltas(ck, I)
    O.attach(I)
    if readops:
        contracts.use_read_ops(ck, I, O)
        contracts.use_sections(ck, I, O, R)
        if nested:
            contracts.use_nested(ck, I)
    if sections:
        contracts.use_sections(ck, I, O, D)
    st = State()
    c = ("cell", "rd")
    st.mem[c] = ("O", ("in", "stream"), mkty("param", name="R"))
    return I, O, st, c


def finish(ck, I, outs, name):
    ck.count("exits", len(outs))
    if not outs:
        ck.bad("exits:" + name, "no exit of %s found" % name)
    panics(ck, I, name + ":")
    ck.ok("entry:" + name)
    ck.done(I)


def prim(ck, name):
    I, O, st, c = start(ck, False)
    fn = ck.fn(C, name)
    finish(ck, I, I.call_fn(st, fn, [ref(c)], genv(fn)), name)


def header(ck):
    I, O, st, c = start(ck)
    fn = ck.fn(R, "read_section_header")
    finish(ck, I, I.call_fn(st, fn, [ref(c)], genv(fn)), "read_section_header")


def buf(ck, O, st):
    ob = ("cell", "out")
    ty = O.ty(mkty("adt", path=ck.adt(R, "Add").path))
    n = named(("in", "buffered"), 0, 1 << 48)
    st.mem[ob] = ("Q", ty, n, ("u", ("buffered",)))
    return ob


def ops(ck):
    I, O, st, c = start(ck)
    nrun = [0]

    def push(I, st, q, x, site, v):
        if O.isop(q[1]) and O.variant(st, x) == O.v["Run"]:
            nrun[0] += 1
            ck.cond(I, st, "run-limit", ("cge", L(62).sub(I.proj(st, O.body(I, st, x)[1], O.rf["len"]))), "a Run longer than 62 bytes is delivered")
    I.hooks["push"] = [push]
    fn = ck.fn(R, "read_ops_no_comp")
    hc = ("cell", "hdr")
    st.mem[hc] = I.opaque_val(("h",), mkty("adt", path=ck.adt(C, "SectionHeader").path))
    finish(ck, I, I.call_fn(st, fn, [ref(c), ref(hc), ref(buf(ck, O, st))], genv(fn)), "read_ops_no_comp")
    ck.count("Runs delivered", nrun[0])
    if not nrun[0]:
        ck.undecided("run-limit", "no place seen where a Run is delivered")


def op(ck):
    I, O, st, c = start(ck)
    fn = ck.fn(R, "read_op")
    a, b = ("cell", "d"), ("cell", "o")
    st.mem[a], st.mem[b] = named(("in", "d"), 0, (1 << 64) - 1), named(("in", "o"), 0, (1 << 64) - 1)
    outs = []
    for flag in (True, False):
        outs += I.call_fn(st.copy(), fn, [ref(c), ref(a), ref(b), flag], genv(fn))
    finish(ck, I, outs, "read_op")


def section(ck):
    I, O, st, c = start(ck)
    fn = ck.fn(R, "read_section")
    finish(ck, I, I.call_fn(st, fn, [ref(c), ref(buf(ck, O, st))], genv(fn)), "read_section")


def iterator(ck, crate, name):
    I, O, st, c = start(ck, True, crate == D, nested=True)
    fn = ck.tfn(crate, "Iterator", "next", "SectionIterator") if name == "next" else ck.fn(crate, name, "SectionIterator")
    it = ck.adt(crate, "SectionIterator")
    c = ("cell", "iter")
    st.mem[c] = I.opaque_val(("iter",), mkty("adt", path=it.path, args=(mkty("param", name="R"),)))
    finish(ck, I, I.call_fn(st, fn, [ref(c)], genv(fn)), crate + "::" + name)


def apply(ck, src):
    I, O, st, c = start(ck, True, True, True)
    fn = ck.fn(D, "apply_patch")
    P, Rr, Wr = fn.generics[:3]
    pc, sc, wc = ("cell", "patch"), ("cell", "src"), ("cell", "sink")
    st.mem[pc] = ("O", ("in", "patch"), mkty("param", name=P))
    st.mem[sc] = ("O", ("in", "src"), mkty("param", name=Rr))
    st.mem[wc] = ("O", ("in", "sink"), mkty("param", name=Wr))
    rt = mkty("ref", t=mkty("param", name=Rr))
    a = IT.some(rt, ref(sc)) if src else IT.none(rt)
    finish(ck, I, I.call_fn(st, fn, [ref(pc), a, ref(wc)], genv(fn)), "apply_patch")


def nested(ck):
    """The expansion of a nested section, if the decoder has it as a function of its own (else it is part of the iterators)."""
    fn = ck.find(D, "apply_no_sec_comp")
    if fn is None or len(fn.generics) < 3:
        return
    I, O, st, c = start(ck, True, True)
    P, Rr, Wr = fn.generics[:3]
    bc, cc = ("cell", "buf"), ("cell", "cursor")
    st.mem[bc] = I.opaque_val(("buf",), VECU8)
    cty = mkty("adt", path="std::io::cursor::Cursor", args=(mkty("ref", t=VECU8),))
    st.mem[cc] = ("I", "wrap", "cursor", ref(bc), ZERO)
    st.mem[c] = ("O", ("in", "stream"), mkty("param", name=P))
    finish(ck, I, I.call_fn(st, fn, [ref(c), IT.none(mkty("ref", t=mkty("param", name=Rr))), ref(cc)], genv(fn, **{Wr: cty})), "apply_no_sec_comp")

"""C14: a section's tag names the codec of its body, on both sides, and a compressed body is used up completely."""
from base import *
from opsem import Ops
import base, contracts

R, D, E, C = "smdiff_reader", "smdiff_decoder", "smdiff_encoder", "smdiff_common"
ALGO = {"smdiff": 1, "zstd": 2, "brotli": 3}          # spec.md: secondary compression values


def run(ck):
    for name in ("next_borrowed", "next"):
        ck.section("decoder: " + name, decode, ck, name)
    ck.section("reader: read_section", plain, ck, "read_section")
    for name in ("next_borrowed", "next"):
        ck.section("reader: " + name, plain, ck, name)
    ck.section("writer: without compression", write, ck, False)
    ck.section("writer: with compression", write, ck, True)
    ck.floor("compressed sections delivered", 6)
    ck.floor("compressed sections written", 3)
    return dict(rule="decoder: a section is delivered only if its operations were read from the stream itself for tag 0, from the expansion of the nested patch for 1, through zstd for 2, brotli for 3, "
                     "and for 1 to 3 the decompressed data was seen to end; the plain reader delivers only tag 0; "
                     "writer: the header written first carries the tag of the codec that all of the operation bytes then go through, and the codec is finished",
                assumptions=["section headers, operations and nested patches by contract (C05, C07, C08, C10, C11, C13, C16)", "the external codecs do what their documentation says"])


def hidx(ck):
    return {m: i for i, (m, _, _) in enumerate(ck.adt(C, "SectionHeader").variants[0][2])}


def delivered(v):
    """The header in Some(Ok((.., header)))."""
    if v[0] == "A" and v[1].path == OPTION:
        if v[2] == 0:
            return None
        v = v[3][0]
    return v[3][0] if is_ok(v) else None


def judge(ck, I, s, good, key, text):
    ck.ob(True if good else (None if good is None or models.state_tainted(I, s) else False), key, text)


def setup(ck):
    I = ck.interp(200)
    contracts.use_varints(ck, I)
    contracts.use_deltas(ck, I)
    O = Ops(ck)
    O.attach(I, ())
    contracts.use_read_ops(ck, I, O)
    contracts.use_header(ck, I)
    return I, O


def decode(ck, name):
    I, O = setup(ck)
    contracts.use_nested(ck, I)
    fn = ck.tfn(D, "Iterator", "next", "SectionIterator") if name == "next" else ck.fn(D, name, "SectionIterator")
    it = ck.adt(D, "SectionIterator")
    st = State()
    c = ("cell", "iter")
    st.mem[c] = I.opaque_val(("iter",), mkty("adt", path=it.path, args=(mkty("param", name="R"),)))
    hi = hidx(ck)
    for s, v in I.call_fn(st, fn, [ref(c)], genv(fn)):
        r = delivered(v)
        if r is None:
            continue
        tag = I.proj(s, I.proj(s, r, 1), hi["compression_algo"])
        ev = s.events()
        at = [i for i, e in enumerate(ev) if e[0] == "readops"]
        if len(at) != 1:
            judge(ck, I, s, None, "readops", "the operations were not read by read_ops_no_comp once")
            continue
        e = ev[at[0]]
        before, after = ev[:at[0]], ev[at[0] + 1:]
        sid = e[1]
        decs = [d for d in before if d[0] == "decoder"]
        nest = [d for d in before if d[0] == "nested"]
        if isinstance(sid, tuple) and sid[0] == "dec":
            kind = sid[1]
            mine = [d for d in decs if d[4] == sid]
            judge(ck, I, s, len(mine) == 1 and mine[0][2] == hdrsid(before), "source", "the decompressor does not read the stream the header came from")
            judge(ck, I, s, all(not d[5] for d in mine), "readahead", "the decompressor reads through a buffer of its own, whose read-ahead is lost for the next section")
        elif isinstance(sid, tuple) and sid[0] == "cursor":
            kind = "smdiff"
            judge(ck, I, s, len(nest) == 1 and nest[0][1] == hdrsid(before), "source", "the nested patch is not read from the stream the header came from")
        else:
            kind = None
            judge(ck, I, s, sid == hdrsid(before) and not decs and not nest, "source", "the operations are not read from the stream the header came from")
        want = 0 if kind is None else ALGO[kind]
        d = s.f.prove_eq0(tag.sub(want))
        judge(ck, I, s, d, "tag:%s" % (kind or "none"), "a section delivered through %s may carry another tag than %d" % (kind or "no codec", want))
        if kind is not None:
            ck.count("compressed sections delivered")
            judge(ck, I, s, ended(I, s, after, sid), "end:" + kind, "a section is delivered without its %s data having been read to the end" % kind)
    ck.done(I)


def hdrsid(ev):
    h = [e for e in ev if e[0] == "header"]
    return h[-1][1] if h else None


def ended(I, s, ev, sid):
    """Was the end of the data seen: a read for at least one byte that gave none?"""
    for e in ev:
        if e[0] == "decoder_end" and e[1] == sid:
            return True
        if e[0] == "cread" and sid[0] == "cursor" and s.f.prove_eq0(e[1]) and s.f.prove_ge0(e[2].sub(1)):
            return True
        if e[0] == "read" and e[1] == sid and s.f.prove_eq0(e[3]):
            if any(x == sid and n == e[3] and s.f.prove_ge0(want.sub(1)) for x, n, want in (s.tag.get("partial") or ())):
                return True
        if e[0] == "read_to_end" and e[1] == sid and s.f.prove_eq0(e[3]):
            return True
        if e[0] == "cread_to_end" and sid[0] == "cursor":
            return None
    return False


def plain(ck, name):
    I, O = setup(ck)
    st = State()
    hi = hidx(ck)
    if name == "read_section":
        fn = ck.fn(R, name)
        st.mem[("cell", "rd")] = ("O", ("in", "stream"), mkty("param", name="R"))
        st.mem[("cell", "ops")] = ("Q", O.ty(mkty("adt", path=ck.adt(R, "Add").path)), ZERO, EMPTY)
        args = [ref(("cell", "rd")), ref(("cell", "ops"))]
    else:
        fn = ck.tfn(R, "Iterator", "next", "SectionIterator") if name == "next" else ck.fn(R, name, "SectionIterator")
        it = ck.adt(R, "SectionIterator")
        st.mem[("cell", "iter")] = I.opaque_val(("iter",), mkty("adt", path=it.path, args=(mkty("param", name="R"),)))
        args = [ref(("cell", "iter"))]
    n = 0
    for s, v in I.call_fn(st, fn, args, genv(fn)):
        r = delivered(v)
        if r is None:
            continue
        n += 1
        h = r if name == "read_section" else I.proj(s, r, 1)
        judge(ck, I, s, s.f.prove_eq0(I.proj(s, h, hi["compression_algo"])), "plain:" + name, "the plain reader delivers a compressed section as if it were not")
    ck.ob(True if n else None, "plain:%s:reached" % name, "no section delivered")
    ck.done(I)


def write(ck, comp):
    I = ck.interp(200)
    O = Ops(ck)
    O.attach(I, ())
    contracts.use_writers(ck, I)
    fn = ck.fn(E, "section_writer")
    hi = hidx(ck)
    sc = ck.adt(E, "SecondaryCompression")
    st = State()
    opt = mkty("adt", path=OPTION, args=(mkty("adt", path=sc.path),))
    st.mem[("cell", "comp")] = IT.some(opt.args[0], I.opaque_val(("in", "comp"), opt.args[0])) if comp else IT.none(opt.args[0])
    W = mkty("param", name=fn.generics[0])
    st.mem[("cell", "w")] = ("O", ("in", "w"), W)
    st.mem[("cell", "buf")] = ("Q", U8, ZERO, EMPTY)
    hv = I.opaque_val(("in", "hdr"), mkty("adt", path=ck.adt(C, "SectionHeader").path))
    hv = I.expand(hv, 0) if hv[0] == "O" else hv
    if not comp:
        st.f.assume_eq0(I.proj(st, hv, hi["compression_algo"]))
    oc, on, oct_ = O.seq(I, st, "in", O.ty(mkty("param", name=fn.generics[1])))
    args = [ref(("cell", "comp")), hv, ref(("cell", "w")), ("S", oc, (), ZERO, on), ref(("cell", "buf"))]
    for s, v in I.call_fn(st, fn, args, genv(fn)):
        if not is_ok(v):
            continue
        body(ck, I, s, hv, on, oct_, s.events(), "")
        # the next section, with the buffer as this one left it
        s.trace = None
        for k in [k for k in s.mem if isinstance(k, tuple) and k[0] == "out"]:
            del s.mem[k]
        for s2, v2 in I.call_fn(s, fn, args, genv(fn)):
            if is_ok(v2):
                body(ck, I, s2, hv, on, oct_, s2.events(), " (second section)")
    ck.done(I)


def body(ck, I, s, hv, on, oct_, ev, nth):
    hi = hidx(ck)
    wh = [(i, e) for i, e in enumerate(ev) if e[0] == "writeheader"]
    wo = [(i, e) for i, e in enumerate(ev) if e[0] == "writeops"]
    raw = [e for e in ev if e[0] == "write" and e[1] == ("in", "w")]
    if len(wh) != 1 or len(wo) != 1:
        judge(ck, I, s, None if not (wh and wo) else False, "once", "header and operations are not written once each" + nth)
        return
    (ih, h), (io, o) = wh[0], wo[0]
    judge(ck, I, s, h[1] == ("in", "w"), "header:where", "the header is not written to the given writer" + nth)
    tag = I.proj(s, h[2], hi["compression_algo"])
    encs = [e for e in ev if e[0] == "encoder"]
    nests = [e for e in ev if e[0] == "encode"]
    q = o[4]
    if o[1] != ("in", "w") and not encs and not nests and raw:
        got = (I.mkcat(s, tuple((e[2][3], e[2][2]) for e in raw)), s.f.norm(base._total([(0, e[2][2]) for e in raw])))
        judge(ck, I, s, same_seq(I, s, got, (q[3], q[2])), "body", "the section's body is not exactly the operation bytes" + nth)
        judge(ck, I, s, s.f.prove_eq0(tag), "tag:none", "an uncompressed section may carry a compression tag" + nth)
        judge(ck, I, s, ih < ev.index(raw[0]), "order", "the operations are written before the header" + nth)
        return
    judge(ck, I, s, not raw, "nothing else", "other bytes are written to the section's writer" + nth)
    judge(ck, I, s, s.f.prove_eq0(o[2][2].sub(on)) and contents(o[2][3]) == oct_, "ops", "other operations are written than were given" + nth)
    for f in ("num_operations", "num_add_bytes", "output_size", "more_sections", "format"):
        a, b, orig = I.proj(s, h[2], hi[f]), I.proj(s, o[3], hi[f]), I.proj(s, hv, hi[f])
        judge(ck, I, s, same(I, s, a, orig) and same(I, s, b, orig), "header:" + f, "the section's %s is changed on writing" % f + nth)
    if o[1] == ("in", "w"):
        judge(ck, I, s, not encs and not nests, "codec", "the operations are written plainly besides a codec" + nth)
        judge(ck, I, s, s.f.prove_eq0(tag), "tag:none", "an uncompressed section may carry a compression tag" + nth)
        judge(ck, I, s, ih < io, "order", "the operations are written before the header" + nth)
        return
    ck.count("compressed sections written")
    if len(encs) + len(nests) != 1:
        judge(ck, I, s, False, "codec", "the operations do not go through one codec" + nth)
        return
    if nests:
        n = nests[0]
        kind = "smdiff"
        judge(ck, I, s, n[1] and n[3] == ("in", "w"), "nested", "the nested patch refers to a source, or goes elsewhere" + nth)
        judge(ck, I, s, same_seq(I, s, (n[2][3], n[2][2]), (q[3], q[2])), "body:smdiff", "the nested patch does not hold exactly the operation bytes" + nth)
        when = ev.index(n)
    else:
        e = encs[0]
        kind = e[1]
        judge(ck, I, s, e[2] == ("in", "w"), "codec:where", "the codec does not write to the given writer" + nth)
        out = s.mem.get(("out", e[3]))
        got = (out[3], out[2]) if out is not None and out[0] == "Q" else (EMPTY, ZERO)
        judge(ck, I, s, same_seq(I, s, got, (q[3], q[2])), "body:" + kind, "the %s codec does not get exactly the operation bytes" % kind + nth)
        judge(ck, I, s, any(x[0] == "encoder_end" and x[1] == e[3] for x in ev), "finish:" + kind, "the %s codec is not finished, so its data may be cut off" % kind + nth)
        when = ev.index(e)
    judge(ck, I, s, ih < when, "order", "the body is written before the header" + nth)
    judge(ck, I, s, s.f.prove_eq0(tag.sub(ALGO[kind])), "tag:" + kind, "a section written through %s may carry another tag than %d" % (kind, ALGO[kind]) + nth)


def contents(c):
    while c[0] == "sub":
        c = c[1]
    return c


def same(I, s, a, b):
    if isinstance(a, Lin) and isinstance(b, Lin):
        return s.f.prove_eq0(a.sub(b))
    if a == b:
        return True
    va, vb = (x[2] if x[0] == "A" else s.var.get(x[1]) if x[0] == "O" else None for x in (a, b))
    return va is not None and va == vb

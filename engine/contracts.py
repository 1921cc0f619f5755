"""Function contracts used when a check composes larger pieces. Each is established by its own check."""
from base import *
from models import stream_of, getpos, setpos, emit, failed, ok, ioerr, slice_q, append_out

C = "smdiff_common"


def uv_read(I, st, path, args, env, dty, site):
    """read_u_varint (C12): some value depending only on the stream and the position, 1..=10 bytes; or an error.
    On bytes that write_u_varint(n) produced it returns n and consumes exactly those bytes."""
    stream = stream_of(I, st, args[0])
    if stream[0] == "bytes":
        s = I.read(st, stream[1], stream[2])
        q = slice_q(I, st, s)
        c, ln = q[3], q[2]
        parts = c[1] if c[0] == "cat" else ((c, ln),)
        pc, pl = parts[0]
        if pc[0] == "u" and isinstance(pc[1], tuple) and pc[1][0] == "uvenc":
            I.write(st, stream[1], stream[2], ("S", s[1], s[2], st.f.norm(s[3].add(pl)), st.f.norm(s[4].sub(pl))))
            emit(I, st, ("uvarint", "bytes", None, pl))
            return [(st, ok(dty, pc[1][1]))]
        return None
    if stream[0] != "sid":
        return None
    sid = stream[1]
    pos = getpos(I, st, sid)
    bad = st.copy()
    n = named(("uvlen", sid, pos), 1, 10)
    emit(I, st, ("uvarint", sid, pos, n))
    setpos(st, sid, pos.add(n))
    setpos(bad, sid, named(("badpos", sid, pos, n), 0, MAXI))
    emit(I, bad, ("uvfail", sid, pos, n))
    failed(I, bad, "read", sid)
    return [(st, ok(dty, named(("uv", sid, pos), 0, (1 << 64) - 1))), (bad, ioerr(dty, "read"))]


def uv_write(I, st, path, args, env, dty, site):
    """write_u_varint (C12): appends an encoding of 1..=10 bytes determined by the value."""
    w, n = args
    stream = stream_of(I, st, w)
    n = st.f.norm(n)
    ln = named(("uvenclen", n), 1, 10)
    q = ("Q", U8, ln, ("u", ("uvenc", n)))
    if stream[0] == "vec":
        cell, path = stream[1], stream[2]
        old = I.read(st, cell, path)
        I.write(st, cell, path, ("Q", old[1], st.f.norm(old[2].add(ln)), I.mkcat(st, ((old[3], old[2]), (q[3], ln)))))
        return [(st, ok(dty, UNITV))]
    if stream[0] == "sid":
        sid = stream[1]
        bad = st.copy()
        emit(I, st, ("uvwrite", sid, n, getpos(I, st, sid)))
        append_out(I, st, sid, q)
        setpos(st, sid, getpos(I, st, sid).add(ln))
        emit(I, bad, ("writefail", sid, q))
        failed(I, bad, "write", sid)
        bad.mem[("out", sid)] = I.opaque_val(("~badout", LN.uid()), VECU8)
        return [(st, ok(dty, UNITV)), (bad, ioerr(dty, "write"))]
    return None


def use_varints(ck, I):
    r, w = ck.find(C, "read_u_varint"), ck.find(C, "write_u_varint")
    if r is not None:
        I.contracts[r.path] = uv_read
    if w is not None:
        I.contracts[w.path] = uv_write


def iv_read(I, st, path, args, env, dty, site):
    """read_i_varint (C12): like read_u_varint, with signed values."""
    stream = stream_of(I, st, args[0])
    if stream[0] == "bytes":
        s = I.read(st, stream[1], stream[2])
        q = slice_q(I, st, s)
        c = q[3]
        pc, pl = (c[1] if c[0] == "cat" else ((c, q[2]),))[0]
        if pc[0] == "u" and isinstance(pc[1], tuple) and pc[1][0] == "ivenc":
            I.write(st, stream[1], stream[2], ("S", s[1], s[2], st.f.norm(s[3].add(pl)), st.f.norm(s[4].sub(pl))))
            emit(I, st, ("uvarint", "bytes", None, pl))
            return [(st, ok(dty, pc[1][1]))]
        return None
    if stream[0] != "sid":
        return None
    out = uv_read(I, st, path, args, env, dty, site)
    s0, _ = out[0]
    sid = stream[1]
    n = next(e for e in reversed(s0.events()) if e[0] == "uvarint" and e[1] == sid)
    out[0] = (s0, ok(dty, named(("iv", sid, n[2]), -(1 << 63), (1 << 63) - 1)))
    return out


def iv_write(I, st, path, args, env, dty, site):
    """write_i_varint (C12): appends an encoding of 1..=10 bytes determined by the value."""
    w, n = args
    stream = stream_of(I, st, w)
    n = st.f.norm(n)
    ln = named(("ivenclen", n), 1, 10)
    q = ("Q", U8, ln, ("u", ("ivenc", n)))
    if stream[0] == "vec":
        cell, path = stream[1], stream[2]
        old = I.read(st, cell, path)
        I.write(st, cell, path, ("Q", old[1], st.f.norm(old[2].add(ln)), I.mkcat(st, ((old[3], old[2]), (q[3], ln)))))
        return [(st, ok(dty, UNITV))]
    if stream[0] == "sid":
        sid = stream[1]
        bad = st.copy()
        emit(I, st, ("ivwrite", sid, n, getpos(I, st, sid)))
        append_out(I, st, sid, q)
        setpos(st, sid, getpos(I, st, sid).add(ln))
        emit(I, bad, ("writefail", sid, q))
        failed(I, bad, "write", sid)
        bad.mem[("out", sid)] = I.opaque_val(("~badout", LN.uid()), VECU8)
        return [(st, ok(dty, UNITV)), (bad, ioerr(dty, "write"))]
    return None


def quiet(f, *a):
    """Wrapping that is meant."""
    old, LN.ONWRAP = LN.ONWRAP, None
    try:
        return f(*a)
    finally:
        LN.ONWRAP = old


def d_enc(I, st, path, args, env, dty, site):
    """diff_addresses_to_i64 (C12): target - cur modulo 2^64, as a signed number."""
    return [(st, quiet(LN.wrap, st.f, 64, True, st.f.norm(args[1].sub(args[0]))))]


def d_dec(I, st, path, args, env, dty, site):
    """diff_addresses_to_u64 (C12): cur + delta modulo 2^64."""
    return [(st, quiet(LN.wrap, st.f, 64, False, st.f.norm(args[0].add(args[1]))))]


def use_deltas(ck, I):
    for name, f in (("read_i_varint", iv_read), ("write_i_varint", iv_write), ("diff_addresses_to_i64", d_enc), ("diff_addresses_to_u64", d_dec)):
        fn = ck.find(C, name)
        if fn is not None:
            I.contracts[fn.path] = f


def use_read_ops(ck, I, O):
    """read_ops_no_comp (C08, C10, C05): on Ok the buffer has gained operations that account for the header
    (their number, output and add bytes), the header keeps everything but the add byte count; else an error."""
    R = "smdiff_reader"
    fn = ck.find(R, "read_ops_no_comp")
    h = ck.adt(C, "SectionHeader")
    hi = {m: i for i, (m, _, _) in enumerate(h.variants[0][2])}
    if fn is None:
        return

    def contract(I, st, path, args, env, dty, site):
        stream = stream_of(I, st, args[0])
        if stream[0] == "sid":
            sid = stream[1]
            pos = getpos(I, st, sid)

            def move(s, p):
                setpos(s, sid, p)
        elif stream[0] == "cursor" and stream[2] is not None and isinstance(stream[1][4], Lin):
            w, r = stream[1], stream[2]
            sid = ("cursor", r[1], r[2])
            pos = w[4]

            def move(s, p):
                I.write(s, r[1], r[2], w[:4] + (p,))
        else:
            return None
        hr, br = args[1], args[2]
        hv = I.read(st, hr[1], hr[2])
        bq = I.read(st, br[1], br[2])
        if not (isinstance(bq, tuple) and bq[0] == "Q"):
            return None
        f = lambda k: I.proj(st, hv, hi[k])
        bad = st.copy()
        u = LN.uid()
        n = f("num_operations")
        end = named(("opsend", u), 0, MAXI)
        st.f.assume_ge0(end.sub(pos))
        c = ("u", ("readops", u, sid))
        emit(I, st, ("readops", sid, pos, n, hv))
        adds = named(("readadds", u), 0, (1 << 32) - 1)
        st.f.assume_ge0(L((1 << 24) - 1).sub(f("output_size")))
        if I.measures_of(bq[1]):
            st.f.assume_eq0(I.qsum(st, bq[1], c, n, ("oal", None)).sub(f("output_size")))
            st.f.assume_eq0(I.qsum(st, bq[1], c, n, ("adds", None)).sub(adds))
        I.write(st, br[1], br[2], ("Q", bq[1], st.f.norm(bq[2].add(n)), I.mkcat(st, ((bq[3], bq[2]), (c, n)))))
        I.write(st, hr[1], hr[2] + (hi["num_add_bytes"],), adds)
        move(st, end)
        # on failure: some prefix, the stream somewhere
        move(bad, named(("badpos", u), 0, MAXI))
        k = named(("badops", u), 0, MAXI)
        I.write(bad, br[1], br[2], ("Q", bq[1], bad.f.norm(bq[2].add(k)), I.mkcat(bad, ((bq[3], bq[2]), (("u", ("badops", u)), k)))))
        I.write(bad, hr[1], hr[2] + (hi["num_add_bytes"],), named(("badadds", u), 0, (1 << 32) - 1))
        emit(I, bad, ("readopsfail", sid, pos, n, hv))
        failed(I, bad, "read", sid)
        return [(st, ok(dty, UNITV)), (bad, ioerr(dty, "read"))]
    I.contracts[fn.path] = contract
    read_limits(I, O)


def use_sections(ck, I, O, crate):
    """The section iterators (C05, C07, C08): Some(Ok(operations that account for the header, header)), Some(Err) or None;
    the stream moves somewhere, the iterator's own buffers and flags hold anything."""
    ity = ck.adt(crate, "SectionIterator")
    read_limits(I, O)
    h = ck.adt(C, "SectionHeader")
    hi = {m: i for i, (m, _, _) in enumerate(h.variants[0][2])}

    def contract(I, st, path, args, env, dty, site):
        me = args[0]
        if me[0] != "R":
            return None
        rty = dty.args[0]                       # Result<(ops, header), error>
        if rty.k != "adt" or rty.path != RESULT or rty.args[0].k != "tuple":
            return None
        opsty, hty = rty.args[0].args
        v = I.read(st, me[1], me[2])
        if v[0] == "O":
            v = I.expand(v, 0)
        if v[0] != "A":
            return None
        u = LN.uid()
        ft = I.p.adt_fields(v[1], 0)
        if ft is None:
            return None
        fs = []
        for i, t in enumerate(ft):
            x = v[3][i]
            if t.k == "bool" or t.k == "int" or (t.k == "adt" and t.path == VEC):
                x = I.opaque_val(("sect", u, i), t)
            else:
                s = stream_of(I, st, ("R", me[1], me[2] + (i,)))
                if s[0] == "sid":
                    emit(I, st, ("nextsection", s[1], getpos(I, st, s[1]), u))
                    setpos(st, s[1], named(("sectpos", u), 0, MAXI))
            fs.append(x)
        I.write(st, me[1], me[2], ("A", v[1], v[2], tuple(fs)))
        end, bad = st.copy(), st.copy()
        emit(I, end, ("sectend", u))
        failed(I, bad, "read", None)
        emit(I, bad, ("sectfail", u))
        hv = I.opaque_val(("secthdr", u), hty)
        hv = I.expand(hv, 0) if hv[0] == "O" else hv
        f = lambda k: I.proj(st, hv, hi[k])
        st.f.assume_ge0(L((1 << 24) - 1).sub(f("output_size")))
        et = O.ty(mkty("adt", path=ck.adt("smdiff_reader", "Add").path))
        n = f("num_operations")
        c = ("u", ("sectops", u))
        if I.measures_of(et):
            st.f.assume_eq0(I.qsum(st, et, c, n, ("oal", None)).sub(f("output_size")))
            st.f.assume_eq0(I.qsum(st, et, c, n, ("adds", None)).sub(f("num_add_bytes")))
        q = ("Q", et, n, c)
        if opsty.k == "ref":
            cell = ("sectcell", u)
            st.mem[cell] = q
            val = ("S", cell, (), ZERO, n)
        else:
            val = q
        emit(I, st, ("section", u, hv, c))
        good = ("A", dty, 1, (("A", rty, 0, (("A", rty.args[0], 0, (val, hv)),)),))
        fail = ("A", dty, 1, (ioerr(rty, "read"),))
        return [(st, good), (end, ("A", dty, 0, ())), (bad, fail)]
    for name in ("next_borrowed", "next_owned"):
        fn = ck.find(crate, name, "SectionIterator")
        if fn is not None:
            I.contracts[fn.path] = contract
    I.contracts[ck.tfn(crate, "Iterator", "next", "SectionIterator").path] = contract


def use_nested(ck, I):
    """The decoder's expansion of a section that is itself a patch (C05, C13 decide it): the buffer holds anything afterwards."""
    fn = ck.find("smdiff_decoder", "apply_no_sec_comp")
    if fn is None:
        return

    def contract(I, st, path, args, env, dty, site):
        if len(args) != 3:
            return None
        patch, src, sink = stream_of(I, st, args[0]), args[1], stream_of(I, st, args[2])
        if patch[0] != "sid" or sink[0] != "cursor" or src[0] != "A" or src[2] != 0 or sink[2] is None:
            return None
        w, r = sink[1], sink[2]
        b = w[3]
        if b[0] != "R":
            return None
        q = I.read(st, b[1], b[2])
        if not (isinstance(q, tuple) and q[0] == "Q"):
            return None
        u = LN.uid()
        emit(I, st, ("nested", patch[1], getpos(I, st, patch[1]), u))
        setpos(st, patch[1], named(("nestpos", u), 0, MAXI))
        I.write(st, b[1], b[2], I.opaque_val(("nested", u), VECU8))
        I.write(st, r[1], r[2], w[:4] + (named(("nestcur", u), 0, MAXI),))
        bad = st.copy()
        failed(I, bad, "read", patch[1])
        return [(st, ok(dty, UNITV)), (bad, ioerr(dty, "read"))]
    I.contracts[fn.path] = contract


def from_reader(v):
    """Is this an element of a sequence that came from the section reader?"""
    c = v[1]
    if not (isinstance(c, tuple) and c and c[0] == "el"):
        return False
    c = c[1]
    while c[0] in ("sub", "upd"):
        c = c[1]
    return c[0] == "u" and isinstance(c[1], tuple) and c[1][0] in ("readops", "sectops")


def read_limits(I, O):
    """Operations that came from the section reader: a Run has at most 62 bytes (C05 decides it where they are produced)."""
    if getattr(I, "_read_limits", False):
        return
    I._read_limits = True

    def chosen(I, st, v, i):
        if O.isop(v[2]) and i == O.v["Run"] and from_reader(v):
            st.f.assume_ge0(L(62).sub(I.proj(st, O.body(I, st, v)[1], O.rf["len"])))
    I.hooks.setdefault("variant", []).append(chosen)


def use_header(ck, I):
    """read_section_header (C05, C11): some header, or an error; the stream moves on."""
    fn = ck.find("smdiff_reader", "read_section_header")
    if fn is None:
        return

    def contract(I, st, path, args, env, dty, site):
        s = stream_of(I, st, args[0])
        if s[0] != "sid":
            return None
        sid = s[1]
        pos = getpos(I, st, sid)
        bad = st.copy()
        u = LN.uid()
        emit(I, st, ("header", sid, pos, u))
        setpos(st, sid, named(("hdrend", u), 0, MAXI))
        hv = I.opaque_val(("hdr", u), dty.args[0])
        hv = I.expand(hv, 0) if hv[0] == "O" else hv
        setpos(bad, sid, named(("badpos", u), 0, MAXI))
        emit(I, bad, ("headerfail", sid, pos))
        failed(I, bad, "read", sid)
        return [(st, ok(dty, hv)), (bad, ioerr(dty, "read"))]
    I.contracts[fn.path] = contract


def into(I, st, stream, q):
    """Appends q to a stream or Vec (success)."""
    if stream[0] == "vec":
        old = I.read(st, stream[1], stream[2])
        I.write(st, stream[1], stream[2], ("Q", old[1], st.f.norm(old[2].add(q[2])), I.mkcat(st, ((old[3], old[2]), (q[3], q[2])))))
    elif stream[0] == "sid":
        append_out(I, st, stream[1], q)
        setpos(st, stream[1], getpos(I, st, stream[1]).add(q[2]))


def spoil(I, st, stream):
    """A failed write: some of it may have arrived."""
    if stream[0] == "vec":
        I.write(st, stream[1], stream[2], I.opaque_val(("~badout", LN.uid()), VECU8))
    elif stream[0] == "sid":
        emit(I, st, ("writefail", stream[1], None))
        st.mem[("out", stream[1])] = I.opaque_val(("~badout", LN.uid()), VECU8)
    failed(I, st, "write", stream[1] if stream[0] == "sid" else None)


def desc(stream):
    return stream[1] if stream[0] == "sid" else stream[:3]


def use_writers(ck, I, encode=True):
    """write_section_header (C11), write_ops (C10, C16) and, for nested sections, encode: bytes of some length appended, or an error."""
    def header(I, st, path, args, env, dty, site):
        stream = stream_of(I, st, args[1])
        if stream[0] not in ("sid", "vec"):
            return None
        bad = st.copy()
        u = LN.uid()
        n = named(("whdr", u), 3, 31)
        hv = I.read(st, args[0][1], args[0][2])
        emit(I, st, ("writeheader", desc(stream), hv))
        into(I, st, stream, ("Q", U8, n, ("u", ("hdrbytes", u))))
        spoil(I, bad, stream)
        return [(st, ok(dty, UNITV)), (bad, ioerr(dty, "write"))]

    def ops(I, st, path, args, env, dty, site):
        stream = stream_of(I, st, args[2])
        if stream[0] not in ("sid", "vec"):
            return None
        bad = st.copy()
        u = LN.uid()
        n = named(("wops", u), 0, MAXI)
        hv = I.read(st, args[1][1], args[1][2])
        emit(I, st, ("writeops", desc(stream), slice_q(I, st, args[0]), hv, ("Q", U8, n, ("u", ("opsbytes", u)))))
        into(I, st, stream, ("Q", U8, n, ("u", ("opsbytes", u))))
        spoil(I, bad, stream)
        return [(st, ok(dty, UNITV)), (bad, ioerr(dty, "write"))]

    def enc(I, st, path, args, env, dty, site):
        dict_, src, w = args[0], stream_of(I, st, args[1]), stream_of(I, st, args[2])
        if src[0] != "cursor" or src[2] is None or w[0] not in ("sid", "vec"):
            return None
        q = models.slice_q(I, st, models.cursor_slice(I, st, src[1]))
        pos = src[1][4]
        u = LN.uid()
        none = dict_[0] == "A" and dict_[2] == 0
        bad = st.copy()
        emit(I, st, ("encode", none, ("Q", q[1], st.f.norm(q[2].sub(pos)), I.subcontent(st, q[3], pos, q[2].sub(pos))), desc(w)))
        I.write(st, src[2][1], src[2][2], src[1][:4] + (q[2],))
        into(I, st, w, ("Q", U8, named(("encoded", u), 0, MAXI), ("u", ("encodedbytes", u))))
        spoil(I, bad, w)
        return [(st, ok(dty, UNITV)), (bad, ioerr(dty, "write"))]
    for crate, name, f in (("smdiff_writer", "write_section_header", header), ("smdiff_writer", "write_ops", ops), ("smdiff_encoder", "encode", enc if encode else None)):
        fn = ck.find(crate, name)
        if fn is not None and f is not None:
            I.contracts[fn.path] = f

"""C11: section headers survive writing and reading, and their layout is the documented one."""
from base import *
import contracts

W, R = "smdiff_writer", "smdiff_reader"
FIELDS = ("compression_algo", "format", "more_sections", "num_operations", "num_add_bytes", "output_size")


def fidx(adt):
    return {n: i for i, (n, _, _) in enumerate(adt.variants[0][2])}


def header_val(ck, I, st, tag="h"):
    """A SectionHeader with arbitrary contents."""
    a = ck.adt("smdiff_common", "SectionHeader")
    ty = mkty("adt", path=a.path)
    return I.opaque_val((tag,), ty), fidx(a)


def run(ck):
    ck.section("roundtrip", roundtrip, ck)
    ck.section("layout", layout, ck)
    return dict(rule="read_section_header(write_section_header(h)) == h field by field for every header with a 3-bit algorithm and add bytes within the output; "
                     "fields read from arbitrary bytes are the documented bits / varints, values that do not fit are errors, no arithmetic panic",
                assumptions=["u-varint encode/decode are inverse (decided separately as C12)"])


def roundtrip(ck):
    I = ck.interp(200)
    contracts.use_varints(ck, I)
    w, r = ck.fn(W, "write_section_header"), ck.fn(R, "read_section_header")
    st = State()
    h, ix = header_val(ck, I, st)
    for n in FIELDS:
        if n not in ix:
            ck.bad("field:" + n, "SectionHeader has no field " + n)
            return
    hc = ("cell", "hdr")
    st.mem[hc] = h
    f = {n: h[3][ix[n]] for n in FIELDS}
    st.f.assume_ge0(L(7).sub(f["compression_algo"]))
    st.f.assume_ge0(f["output_size"].sub(f["num_add_bytes"]))
    cv = vec_cell(I, st)
    n = 0
    for s, v in I.call_fn(st, w, [ref(hc), ref(cv)], genv(w)):
        if not is_ok(v):
            ck.ob(None if models.state_tainted(I, s) else False, "write-ok", "a valid header is not written")
            continue
        q = I.read(s, cv, ())
        cs = slice_cell(I, s, cv, q[2])
        fmt = s.var.get(f["format"][1]) if f["format"][0] == "O" else f["format"][2]
        for s2, v2 in I.call_fn(s.copy(), r, [ref(cs)], genv(r)):
            n += 1
            if not is_ok(v2):
                ck.ob(None if models.state_tainted(I, s2) else False, "read-ok", "a header that was just written is rejected")
                continue
            g = {k: I.proj(s2, v2[3][0], ix[k]) for k in FIELDS}
            for k in FIELDS:
                a, b = f[k], g[k]
                if k == "num_add_bytes":
                    # only carried by the segregated format
                    if fmt == 1:
                        ck.cond(I, s2, "field:" + k, ("ceq", b.sub(a)), "header field %s changes between writing and reading" % k)
                    else:
                        ck.cond(I, s2, "field:" + k, ("ceq", b), "an interleaved header does not carry %s" % k)
                elif k == "format":
                    if fmt is None or b[0] != "A":
                        ck.undecided("field:format", "format not definite")
                    else:
                        ck.ob(b[2] == fmt, "field:format", "header format changes between writing and reading")
                elif k == "more_sections":
                    d1, d2 = I.decide(s2, a), I.decide(s2, b)
                    if d1 is None or d2 is None:
                        # compare as conditions
                        same = a == b
                        if not same:
                            x = s2.copy()
                            same = True
                            for s3, t in I.split(x, a):
                                if I.decide(s3, b) is not t:
                                    same = False
                        ck.ob(same, "field:" + k, "the continuation flag changes between writing and reading")
                    else:
                        ck.ob(d1 == d2, "field:" + k, "the continuation flag changes between writing and reading")
                else:
                    ck.cond(I, s2, "field:" + k, ("ceq", b.sub(a)), "header field %s changes between writing and reading" % k)
            rest = I.read(s2, cs, ())
            ck.cond(I, s2, "consumed", ("ceq", rest[4]), "reading a header does not consume exactly what was written")
    ck.count("header partitions", n)
    ck.floor("header partitions", 2)
    panics(ck, I, "rt:")
    ck.done(I)


def layout(ck):
    I = ck.interp(200)
    contracts.use_varints(ck, I)
    r = ck.fn(R, "read_section_header")
    st = State()
    sid = ("in", "stream")
    c = ("cell", "rd")
    st.mem[c] = ("O", sid, mkty("param", name="R"))
    _, ix = header_val(ck, I, st, "x")
    p0 = named(("pos0", sid), 0, MAXI)
    b = I.celem(st, ("u", ("stream", sid)), U8, p0)
    n = 0
    seen = set()
    for s, v in I.call_fn(st, r, [ref(c)], genv(r)):
        if not is_ok(v):
            continue
        n += 1
        g = {k: I.proj(s, v[3][0], ix[k]) for k in FIELDS}
        bits = LN.to_bits(s.f, b, 8)
        ck.ob(LN.to_bits(s.f, g["compression_algo"], 8) == tuple(bits[3:6]) + (0,) * 5, "layout:compression_algo", "bits 3-5 of the control byte are the compression algorithm")
        if g["format"][0] == "A":
            seg = g["format"][2]
            ck.ob(bits[6] == seg, "layout:format", "bit 6 of the control byte selects the segregated format")
            seen.add(seg)
        else:
            ck.undecided("layout:format", "format not definite")
            continue
        m = I.decide(s, g["more_sections"])
        if m is None:
            for s3, t in I.split(s.copy(), g["more_sections"]):
                ck.ob(LN.to_bits(s3.f, b, 8)[7] == int(t), "layout:more_sections", "bit 7 of the control byte is the continuation flag")
        else:
            ck.ob(bits[7] == int(m), "layout:more_sections", "bit 7 of the control byte is the continuation flag")
        # varints in order
        pos = p0.add(1)
        vals = []
        for i in range(3 if seg else 2):
            vals.append(named(("uv", sid, s.f.norm(pos)), 0, (1 << 64) - 1))
            pos = pos.add(named(("uvlen", sid, s.f.norm(pos)), 1, 10))
        ck.cond(I, s, "layout:num_operations", ("ceq", g["num_operations"].sub(vals[0])), "the first varint is the number of operations, unaltered")
        if seg:
            ck.cond(I, s, "layout:num_add_bytes", ("ceq", g["num_add_bytes"].sub(vals[1])), "the second varint of a segregated header is the number of add bytes, unaltered")
            ck.cond(I, s, "layout:output_size", ("ceq", g["output_size"].sub(vals[1]).sub(vals[2])), "output size = stored size + add bytes, unaltered")
        else:
            ck.cond(I, s, "layout:num_add_bytes", ("ceq", g["num_add_bytes"]), "no add byte count in the interleaved format")
            ck.cond(I, s, "layout:output_size", ("ceq", g["output_size"].sub(vals[1])), "the second varint of an interleaved header is the output size, unaltered")
        ck.cond(I, s, "layout:position", ("ceq", models.getpos(I, s, sid).sub(pos)), "the stream is left behind the header")
    ck.count("layout formats", len(seen))
    ck.floor("layout formats", 2)
    panics(ck, I, "layout:")
    ck.done(I)

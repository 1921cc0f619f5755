"""C12: varint, zigzag, fixed-width and address-delta codecs invert each other on the whole value range."""
from base import *

C = "smdiff_common"


def run(ck):
    ck.section("u_varint", u_varint, ck)
    ck.section("u_varint bytes", u_varint_bytes, ck)
    ck.section("i_varint", i_varint, ck)
    ck.section("zigzag", zigzag, ck)
    ck.section("delta", delta, ck)
    ck.section("u8/u16", fixed, ck)
    return dict(rule="write;read composed over the abstract bit/linear domain returns the written value, consumes exactly what was written, "
                "on every partition of the value range; decoding arbitrary bytes returns the sum of the 7-bit groups or an error; no arithmetic panic is reachable")


def roundtrip(ck, wname, rname, ty, val, tag):
    I = ck.interp(200)
    w, r = ck.fn(C, wname), ck.fn(C, rname)
    st = State()
    cv = vec_cell(I, st)
    n = 0
    outs = I.call_fn(st, w, [ref(cv), val] if w.locals[1].k == "ref" else [val, ref(cv)], genv(w))
    for s, v in outs:
        if not is_ok(v):
            ck.cond(I, s, tag + ":write-ok", False, wname + " reports an error writing to a Vec")
            continue
        q = I.read(s, cv, ())
        cs = slice_cell(I, s, cv, q[2])
        for s2, v2 in I.call_fn(s.copy(), r, [ref(cs)], genv(r)):
            n += 1
            if not is_ok(v2):
                ck.ob(None if models.state_tainted(I, s2) else False, tag + ":read-ok", "%s fails on what %s wrote (%d bytes)" % (rname, wname, q[2].c if not q[2].t else -1))
                continue
            ck.cond(I, s2, tag + ":value", ("ceq", v2[3][0].sub(val)), "%s(%s(x)) != x" % (rname, wname))
            rest = I.read(s2, cs, ())
            ck.cond(I, s2, tag + ":consumed", ("ceq", rest[4]), "%s does not consume exactly the bytes %s wrote" % (rname, wname))
            yield I, s2, q
    ck.count("partitions " + tag, n)
    panics(ck, I, tag + ":")
    ck.done(I)


def u_varint(ck):
    n = named(("in", "n"), 0, (1 << 64) - 1)
    size = ck.fn(C, "u_varint_encode_size")
    k = 0
    for I, s, q in roundtrip(ck, "write_u_varint", "read_u_varint", U64, n, "u_varint"):
        k += 1
        ck.cond(I, s, "u_varint:max10", ("cge", L(10).sub(q[2])), "an encoded varint is longer than 10 bytes")
        for s3, v3 in I.call_fn(s.copy(), size, [n], {}):
            ck.cond(I, s3, "u_varint:size", ("ceq", v3.sub(q[2])), "u_varint_encode_size differs from the encoded length")
    ck.count("varint widths", k)
    ck.floor("varint widths", 10)


def i_varint(ck):
    n = named(("in", "i"), -(1 << 63), (1 << 63) - 1)
    k = 0
    for I, s, q in roundtrip(ck, "write_i_varint", "read_i_varint", I64, n, "i_varint"):
        k += 1
        ck.cond(I, s, "i_varint:max10", ("cge", L(10).sub(q[2])), "an encoded varint is longer than 10 bytes")
    ck.count("i_varint widths", k)
    ck.floor("i_varint widths", 10)


def u_varint_bytes(ck):
    """Reading arbitrary bytes: Ok(value) is exactly the little-endian sum of the 7-bit groups that were read."""
    I = ck.interp(200)
    r = ck.fn(C, "read_u_varint")
    st = State()
    sid = ("in", "stream")
    c = ("cell", "rd")
    st.mem[c] = ("O", sid, mkty("param", name="R"))
    k = 0
    for s, v in I.call_fn(st, r, [ref(c)], genv(r)):
        if not is_ok(v):
            continue
        k += 1
        p0, p1 = named(("pos0", sid), 0, (1 << 63) - 1), models.getpos(I, s, sid)
        ln = s.f.norm(p1.sub(p0))
        if ln.t:
            ck.undecided("u_varint:sum", "length of the encoding is not definite")
            continue
        bits = []
        for i in range(ln.c):
            b = I.celem(s, ("u", ("stream", sid)), U8, p0.add(i))
            bb = LN.to_bits(s.f, b, 8)
            ck.ob(bb[7] == (1 if i + 1 < ln.c else 0), "u_varint:continuation", "byte %d of %d: the continuation bit does not decide where the varint ends" % (i + 1, ln.c))
            bits += bb[:7]
        over = bits[64:]
        ck.ob(all(x == 0 for x in over), "u_varint:overflow", "bits beyond the 64th are dropped from a varint of %d bytes" % ln.c)
        got = LN.to_bits(s.f, v[3][0], 64)
        want = tuple((bits + [0] * 64)[:64])
        ck.ob(True if got == want else (None if models.state_tainted(I, s) else False), "u_varint:groups",
              "read_u_varint of %d bytes is not the little-endian concatenation of their 7-bit groups" % ln.c)
    ck.count("varint read widths", k)
    ck.floor("varint read widths", 10)
    panics(ck, I, "u_varint_bytes:")
    ck.done(I)


def zigzag(ck):
    I = ck.interp(100)
    e, d = ck.fn(C, "zigzag_encode"), ck.fn(C, "zigzag_decode")
    x = named(("in", "z"), -(1 << 63), (1 << 63) - 1)
    for s, v in I.call_fn(State(), e, [x], {}):
        ck.cond(I, s, "zigzag:nonneg", ("cge", v), "range")
        for s2, v2 in I.call_fn(s.copy(), d, [v], {}):
            ck.cond(I, s2, "zigzag:de", ("ceq", v2.sub(x)), "zigzag_decode(zigzag_encode(x)) != x")
            ck.count("zigzag")
    y = named(("in", "y"), 0, (1 << 64) - 1)
    for s, v in I.call_fn(State(), d, [y], {}):
        for s2, v2 in I.call_fn(s.copy(), e, [v], {}):
            ck.cond(I, s2, "zigzag:ed", ("ceq", v2.sub(y)), "zigzag_encode(zigzag_decode(y)) != y")
            ck.count("zigzag")
    ck.floor("zigzag", 2)
    panics(ck, I, "zigzag:")
    ck.done(I)


def delta(ck):
    I = ck.interp(100)
    e, d = ck.fn(C, "diff_addresses_to_i64"), ck.fn(C, "diff_addresses_to_u64")
    # addresses are positions in byte sequences: below 2^63 by construction of the format's signed deltas
    a, b = named(("in", "cur"), 0, (1 << 64) - 1), named(("in", "tgt"), 0, (1 << 64) - 1)
    st = State()
    st.f.assume_ge0(L((1 << 63) - 1).sub(a))
    st.f.assume_ge0(L((1 << 63) - 1).sub(b))
    for s, v in I.call_fn(st, e, [a, b], {}):
        for s2, v2 in I.call_fn(s.copy(), d, [a, v], {}):
            ck.cond(I, s2, "delta:inverse", ("ceq", v2.sub(b)), "applying the delta between two addresses does not give the second address")
            ck.count("delta")
    ck.floor("delta", 1)
    panics(ck, I, "delta:")
    # any pair at all: no panic, and the wrapping difference / sum
    I2 = ck.interp(100)
    for s, v in I2.call_fn(State(), e, [a, b], {}):
        ck.cond(I2, s, "delta:difference", ("ceq", v.sub(LN.wrap(s.f, 64, True, b.sub(a)))), "the delta between two addresses is not their difference modulo 2^64")
    i = named(("in", "i"), -(1 << 63), (1 << 63) - 1)
    for s, v in I2.call_fn(State(), d, [a, i], {}):
        ck.cond(I2, s, "delta:sum", ("ceq", v.sub(LN.wrap(s.f, 64, False, a.add(i)))), "applying a delta is not addition modulo 2^64")
    panics(ck, I2, "delta-any:")
    ck.done(I)
    ck.done(I2)


def fixed(ck):
    for nm, ty, hi in (("u8", U8, 255), ("u16", U16, 65535)):
        x = named(("in", nm), 0, hi)
        k = 0
        for I, s, q in roundtrip(ck, "write_" + nm, "read_" + nm, ty, x, nm):
            k += 1
            ck.cond(I, s, nm + ":width", ("ceq", q[2].sub(1 if nm == "u8" else 2)), "wrong width")
        ck.count(nm, k)
        ck.floor(nm, 1)

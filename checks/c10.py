"""C10: operations survive writing and reading, and their bytes are the format's."""
from base import *
from opsem import Ops, MAXOP
import contracts

W, R = "smdiff_writer", "smdiff_reader"


def run(ck):
    for fmt in (0, 1):
        ck.section("one op, format %d" % fmt, roundtrip, ck, fmt, 1)
        ck.section("two ops, format %d" % fmt, roundtrip, ck, fmt, 2)
        ck.section("three ops, format %d" % fmt, roundtrip, ck, fmt, 3)
        ck.section("reading, format %d" % fmt, reading, ck, fmt)
        ck.section("behind another operation, format %d" % fmt, roundtrip, ck, fmt, 2, True)
    ck.count("operation kinds", sum(1 for k in ck.counts if k.startswith("kind: ")))
    ck.floor("operation kinds", 3)
    return dict(rule="read_ops_no_comp(write_ops(ops)) == ops for lists of one, two and three arbitrary operations in both formats; "
                     "the bytes of each operation are tag|size byte, extra size bytes, then payload, as fixed by the format",
                assumptions=["u-varint encode/decode are inverse (C12)", "operations are within the format's limits: length 1..=65535, Run length <= 62, addresses below 2^63",
                             "longer lists repeat the same per-operation step from an address state of the same form"])


def roundtrip(ck, fmt, n, behind=False):
    I = ck.interp(250)
    contracts.use_varints(ck, I)
    contracts.use_deltas(ck, I)
    O = Ops(ck)
    O.minlen = 1
    O.attach(I, ("oal", "adds"), MAXOP)
    I.force_unroll, I.unroll_width = 8, 3000
    w, r = ck.fn(W, "write_ops"), ck.fn(R, "read_ops_no_comp")
    h = ck.adt("smdiff_common", "SectionHeader")
    hi = {m: i for i, (m, _, _) in enumerate(h.variants[0][2])}
    st = State()
    # operations first: equalities with header fields are then solved for the header fields
    ops = tuple(("O", ("op", fmt, n, i), O.ty()) for i in range(n))
    for o in ops:
        for k in range(3):
            x = I.proj(st, I.expand(o, k), 0)
            # the format's limits on the operation, should it be of this kind
            if k == O.v["Add"]:
                ln = O.addlen(I, st, x)
            else:
                fs = O.rf if k == O.v["Run"] else O.cf
                for f in fs.values():
                    I.proj(st, x, f)
                ln = I.proj(st, x, fs["len"])
            st.f.assume_ge0(ln.sub(1))
            st.f.assume_ge0(L(62 if k == O.v["Run"] else MAXOP).sub(ln))
            if k == O.v["Copy"]:
                st.f.assume_ge0(L((1 << 63) - 1).sub(I.proj(st, x, O.cf["addr"])))
    hv = I.opaque_val(("h", fmt, LN.uid()), mkty("adt", path=h.path))
    st.var[I.proj(st, hv, hi["format"])[1]] = fmt
    hc = ("cell", "hdr")
    st.mem[hc] = hv
    oc = ("cell", "list")
    st.mem[oc] = ("Q", O.ty(), L(n), ("e", ops))
    starts = [st]
    paths = 0
    for s0 in starts:
        cv = vec_cell(I, s0)
        for s, v in I.call_fn(s0, w, [("S", oc, (), ZERO, L(n)), ref(hc), ref(cv)], genv(w)):
            if not is_ok(v):
                continue
            q = I.read(s, cv, ())
            if n == 1:
                layout(ck, I, O, s, ops[0], q, fmt)
            cs = slice_cell(I, s, cv, q[2])
            h2 = ("cell", "hdr2")
            s.mem[h2] = hv
            ob = ("cell", "out")
            s.mem[ob] = ("Q", optype(ck, O), ZERO, EMPTY)
            if behind:          # the list read to is not empty: an Add of some bytes is there already
                old = I.expand(("O", ("in", "before"), optype(ck, O)), O.v["Add"])
                was = O.addbytes(I, s, I.proj(s, old, 0))
                s.mem[ob] = ("Q", optype(ck, O), L(1), ("e", (old,)))
            for s2, v2 in I.call_fn(s.copy(), r, [ref(cs), ref(h2), ref(ob)], genv(r)):
                paths += 1
                if not is_ok(v2):
                    ck.ob(None if models.state_tainted(I, s2) else False, "read-ok", "operations that were just written are rejected: " + kinds(O, s2, ops))
                    continue
                q2 = I.read(s2, ob, ())
                if behind:
                    first = I.elem(s2, q2, ZERO)
                    now = O.addbytes(I, s2, I.proj(s2, first, 0)) if O.variant(s2, first) == O.v["Add"] else None
                    ok = now is not None and same_seq(I, s2, now, was)
                    ck.ob(True if ok else None if models.state_tainted(I, s2) else False, "before", "reading changes an operation the list held before")
                    if q2[3][0] != "e":
                        ck.undecided("behind", "the list read is not followed element by element")
                        continue
                    q2 = ("Q", q2[1], q2[2].sub(1), ("e", q2[3][1][1:]))
                compare(ck, I, O, s2, ops, q2, I.read(s2, cs, ()), s2.mem[h2], hi)
    ck.count("write/read paths", paths)
    if not paths:
        ck.bad("paths", "no operation list is written and read back")
    ck.done(I)


def reading(ck, fmt):
    """One operation from arbitrary bytes: the value the format gives them, or an error."""
    I = ck.interp(250)
    contracts.use_varints(ck, I)
    contracts.use_deltas(ck, I)
    O = Ops(ck)
    I.force_unroll, I.unroll_width = 8, 3000
    r = ck.fn(R, "read_ops_no_comp")
    h = ck.adt("smdiff_common", "SectionHeader")
    hi = {m: i for i, (m, _, _) in enumerate(h.variants[0][2])}
    st = State()
    sid = ("in", "stream")
    c = ("cell", "rd")
    st.mem[c] = ("O", sid, mkty("param", name="R"))
    p0 = named(("pos0", sid), 0, MAXI)
    at = lambda s, p: I.celem(s, ("u", ("stream", sid)), U8, s.f.norm(p))
    b0 = at(st, p0)
    hv = I.opaque_val(("h", fmt, LN.uid()), mkty("adt", path=h.path))
    st.var[I.proj(st, hv, hi["format"])[1]] = fmt
    hc = ("cell", "hdr")
    I.proj(st, hv, hi["num_operations"])
    st.f.assume_eq0(I.proj(st, hv, hi["num_operations"]).sub(1))
    st.mem[hc] = hv
    ob = ("cell", "out")
    st.mem[ob] = ("Q", optype(ck, O), ZERO, EMPTY)
    seen = set()
    for s, v in I.call_fn(st, r, [ref(c), ref(hc), ref(ob)], genv(r)):
        if not is_ok(v):
            continue
        tn = models.state_tainted(I, s)
        no = lambda: None if tn else False
        out = I.read(s, ob, ())
        if not s.f.prove_eq0(out[2].sub(1)):
            ck.ob(no(), "read:count", "a header announcing one operation gives another number")
            continue
        op = I.elem(s, out, ZERO)
        b = O.body(I, s, op)
        if b is None:
            ck.undecided("read:kind", "kind not followed")
            continue
        k, x = b
        bits = LN.to_bits(s.f, b0, 8)
        if k == O.v["Copy"]:
            sv = I.proj(s, x, O.cf["src"])
            d = sv[2] if sv[0] == "A" else s.var.get(sv[1])
            if d is None:
                # the source is decided by one bit of the first byte
                alts = [(s2, w[2]) for s2, w in I.variants(s.copy(), sv)]
            else:
                alts = [(s, d)]
            for s2, d in alts:
                ck.ob(True if tuple(LN.to_bits(s2.f, b0, 8)[6:]) == (0 if d == O.sv["Dict"] else 1, 0) else no(), "read:tag", "an operation's type is not the two top bits of its first byte")
                seen.add((k, d))
        else:
            ck.ob(True if tuple(bits[6:]) == ((0, 1) if k == O.v["Add"] else (1, 1)) else no(), "read:tag", "an operation's type is not the two top bits of its first byte")
            seen.add((k, 0))
        low = tuple(bits[:6])
        ln = O.oal(I, s, op)
        if low == (1,) * 6:
            want, o = at(s, p0.add(1)).add(62), 2
            ck.ob(k != O.v["Run"] or no(), "read:run-size", "a Run with an extended size is accepted")
            ck.cond(I, s, "read:medium", ("ceq", ln.sub(want)), "a size field of 63 does not mean 62 + the next byte")
        elif low == (0,) * 6:
            o = 3
            u16 = tuple(LN.to_bits(s.f, at(s, p0.add(1)), 8)) + tuple(LN.to_bits(s.f, at(s, p0.add(2)), 8))
            ck.ob(k != O.v["Run"] or no(), "read:run-size", "a Run with an extended size is accepted")
            ck.ob(True if tuple(LN.to_bits(s.f, ln, 16)) == u16 else no(), "read:long", "a size field of 0 does not mean a little-endian u16 length")
        else:
            o = 1
            ck.ob(True if tuple(LN.to_bits(s.f, ln, 16)[:6]) == low and s.f.prove_ge0(L(62).sub(ln)) and s.f.prove_ge0(ln.sub(1)) else no(), "read:short", "a size field of 1..=62 is not the length")
        pos = p0.add(o)
        if k == O.v["Run"]:
            ck.cond(I, s, "read:run-byte", ("ceq", I.proj(s, x, O.rf["byte"]).sub(at(s, pos))), "a Run's byte is not the byte after its size")
            pos = pos.add(1)
        elif k == O.v["Add"]:
            B = O.addbytes(I, s, x)
            ok = B is not None and same_seq(I, s, B, (I.subcontent(s, ("u", ("stream", sid)), pos, ln), ln))
            ck.ob(True if ok else no(), "read:add", "an Add's bytes are not the bytes that follow it")
            pos = pos.add(ln)
        else:
            n = s.f.norm(pos)
            iv = named(("iv", sid, n), -(1 << 63), (1 << 63) - 1)
            ck.cond(I, s, "read:addr", ("ceq", I.proj(s, x, O.cf["addr"]).sub(LN.wrap(s.f, 64, False, iv))), "the first copy's address is not its delta from 0")
            pos = pos.add(named(("uvlen", sid, n), 1, 10))
        ck.cond(I, s, "read:position", ("ceq", models.getpos(I, s, sid).sub(pos)), "the stream is not left behind the operation")
        ck.cond(I, s, "read:output", ("ceq", I.proj(s, s.mem[hc], hi["output_size"]).sub(ln)), "an operation is accepted whose length is not the section's output size")
    ck.count("kinds read in format %d" % fmt, len(seen))
    ck.floor("kinds read in format %d" % fmt, 4)
    ck.done(I)


def optype(ck, O):
    a = ck.adt(R, "Add")
    return O.ty(mkty("adt", path=a.path))


def kinds(O, s, ops):
    return ",".join(str(O.variant(s, o)) for o in ops)


def layout(ck, I, O, s, op, q, fmt):
    k, x = O.body(I, s, op)
    ck.count("kind: %s" % (k,))
    ln = O.oal(I, s, op)
    by = lambda i: I.elem(s, q, L(i))
    if k == O.v["Copy"]:
        sv = I.proj(s, x, O.cf["src"])
        d = sv[2] if sv[0] == "A" else s.var.get(sv[1])
        tag = None if d is None else (0x00 if d == O.sv["Dict"] else 0x40)
    else:
        tag = 0x80 if k == O.v["Add"] else 0xC0
    if tag is None:
        ck.undecided("layout:tag", "copy source not looked at when writing")
        return
    b0 = by(0)
    tn = models.state_tainted(I, s)
    bits = LN.to_bits(s.f, b0, 8)
    ck.ob(True if bits[6:] == (tag >> 6 & 1, tag >> 7) else (None if tn else False), "layout:tag", "the two top bits of an operation's first byte are not its type")
    low, all0, all1 = tuple(bits[:6]), (0,) * 6, (1,) * 6
    if low == all1:
        ck.cond(I, s, "layout:medium", ("ceq", by(1).sub(ln.sub(62))), "after a size field of 63 the next byte is not length - 62")
        o = 2
    elif low == all0:
        ck.cond(I, s, "layout:long", ("ceq", LN.from_bits(s.f, tuple(LN.to_bits(s.f, by(1), 8)) + tuple(LN.to_bits(s.f, by(2), 8)), 16, False).sub(ln)), "after a size field of 0 the length is not a little-endian u16")
        o = 3
    else:
        ck.cond(I, s, "layout:short-range", ("cge", L(62).sub(ln)), "a size field of 1..=62 is used for a longer operation")
        ck.ob(True if low == tuple(LN.to_bits(s.f, ln, 16)[:6]) else (None if tn else False), "layout:short", "a size field of 1..=62 is not the length")
        o = 1
    rest = (I.subcontent(s, q[3], L(o), q[2].sub(o)), s.f.norm(q[2].sub(o)))
    if k == O.v["Run"]:
        ck.cond(I, s, "layout:run-len", ("ceq", rest[1].sub(1)), "a Run is not followed by one byte")
        ck.cond(I, s, "layout:run-byte", ("ceq", by(o).sub(I.proj(s, x, O.rf["byte"]))), "a Run's payload is not its byte")
    elif k == O.v["Add"]:
        ok = same_seq(I, s, rest, O.addbytes(I, s, x))
        ck.ob(True if ok else (None if models.state_tainted(I, s) else False), "layout:add", "an Add's payload is not its bytes")
    else:
        c = rest[0]
        addr = I.proj(s, x, O.cf["addr"])
        ok = c[0] == "u" and c[1][0] == "ivenc" and s.f.prove_eq0(c[1][1].sub(addr))
        ck.ob(True if ok else (None if models.state_tainted(I, s) or c[0] != "u" else False), "layout:copy", "the first copy's payload is not the zigzag varint of its address")


def compare(ck, I, O, s, ops, out, rest, hdr, hi):
    n = len(ops)
    tn = models.state_tainted(I, s)
    ck.cond(I, s, "count", ("ceq", out[2].sub(n)), "another number of operations is read than was written")
    ck.cond(I, s, "consumed", ("ceq", rest[4]), "reading operations does not consume exactly what was written")
    adds = ZERO
    for i, o in enumerate(ops):
        k, x = O.body(I, s, o)
        p = I.elem(s, out, L(i))
        k2 = O.variant(s, p)
        if k2 is None:
            ck.undecided("kind", "kind of a read operation not known")
            continue
        if k2 != k:
            ck.ob(None if tn else False, "kind", "an operation is read as another kind (%s for %s)" % (k2, k))
            continue
        ck.ok("kind")
        y = I.proj(s, p, 0)
        if k == O.v["Run"]:
            for f in ("byte", "len"):
                ck.cond(I, s, "run:" + f, ("ceq", I.proj(s, x, O.rf[f]).sub(I.proj(s, y, O.rf[f]))), "a Run's %s changes between writing and reading" % f)
        elif k == O.v["Copy"]:
            for f in ("addr", "len"):
                ck.cond(I, s, "copy:" + f, ("ceq", I.proj(s, x, O.cf[f]).sub(I.proj(s, y, O.cf[f]))), "a Copy's %s changes between writing and reading" % f)
            a, b = I.proj(s, x, O.cf["src"]), I.proj(s, y, O.cf["src"])
            a, b = (v[2] if v[0] == "A" else s.var.get(v[1]) for v in (a, b))
            ck.ob(True if a == b and a is not None else (None if tn or a is None or b is None else False), "copy:src", "a Copy's source changes between writing and reading")
        else:
            A, B = O.addbytes(I, s, x), O.addbytes(I, s, y)
            adds = adds.add(A[1])
            if B is None:
                ck.undecided("add", "bytes of a read Add not followed")
            else:
                ck.ob(True if same_seq(I, s, A, B) else (None if tn else False), "add", "an Add's bytes change between writing and reading")
    ck.cond(I, s, "header:adds", ("ceq", I.proj(s, hdr, hi["num_add_bytes"]).sub(adds)), "after reading, the header's add byte count is not that of the operations")

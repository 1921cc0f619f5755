"""C26: writing a summary and transcoding a patch keep its meaning, in the sections and format asked for."""
from base import *
from opsem import Ops
import c21, contracts

M, C, E = c21.M, "smdiff_common", "smdiff_encoder"


def run(ck):
    for comp in (False, True):
        for shape in ("", "A", "R", "D", "O", "AA", "RR", "AR", "RA", "DO", "A|A", "R|R", "AD", "RD", "OA"):
            ck.section("transcode %s%s" % (shape, ", compressed" if comp else ""), transcode, ck, shape, comp)
        for shape in ("", "A", "RD", "AO", "AAD", "RRR"):
            ck.section("write %s%s" % (shape, ", compressed" if comp else ""), write, ck, shape, comp)
    for shape in ("AAA", "RRR", "AAR", "RRA", "ADA", "ARA", "RAR", "R|RR", "RDR", "A|A|A"):
        ck.section("transcode %s" % shape, transcode, ck, shape, False)
    ck.floor("rewritten patches", 10)
    return dict(rule="whenever transcode or SummaryPatch::write succeeds, the operations handed to the section writer, over all sections in order, mean the same output as the patch's operations; "
                     "every section's header carries the requested format, that section's operation count, output length and Add bytes, and all but the last say that more follow",
                assumptions=["patches of up to three arbitrary operations (kinds enumerated; all lengths, addresses, contents)",
                             "the section iterator delivers some operations (C08, C10); headers and operations are written by contract (C10, C11, C16)"])


def setup(ck):
    I = ck.interp(200)
    O = Ops(ck)
    O.attach(I, ("oal", "adds"))
    I.force_unroll, I.unroll_width, I.keep_errors = 10, 4000, True
    contracts.use_writers(ck, I)
    return I, O


def comp_arg(ck, I, ty, comp):
    """None, or some compression."""
    if not comp:
        return ("A", ty, 0, ())
    return ("A", ty, 1, (I.opaque_val(("in", "comp"), ty.args[0]),))


def codec(kind, where, key, o):
    """Inside the section writer: C14's business."""
    return where.startswith(E + "::")


def transcode(ck, shape, comp):
    I, O = setup(ck)
    fn = ck.fn(M, "transcode", None)
    st = State()
    parts = shape.split("|") if shape else [""]
    lists = [c21.oplist(ck, I, O, st, i, p) for i, p in enumerate(parts)]
    st.mem[("cell", "in")] = ("O", ("in", "patch"), mkty("param", name=fn.generics[0]))
    st.mem[("cell", "out")] = ("O", ("in", "sink"), mkty("param", name=fn.generics[1]))
    c21.deliver(ck, I, O, {("in", "patch"): lists})
    refs = iter((ref(("cell", "in")), ref(("cell", "out"))))
    args = []
    fmt = None
    for t in fn.args_ty():
        if t.k == "ref":
            args.append(next(refs))
        elif t.k == "adt" and t.path == OPTION:
            args.append(comp_arg(ck, I, t, comp))
        elif t.k == "int":
            args.append(named(("in", "size"), 0, (1 << 64) - 1))
        else:
            fmt = I.opaque_val(("in", "format"), t)
            args.append(fmt)
    for s, v in I.call_fn(st, fn, args, genv(fn)):
        if is_ok(v):
            judge(ck, I, O, s, [o for l in lists for o in l], lambda s, fmt=fmt: variants(I, s, fmt), "transcode", shape)
    panics(ck, I, skip=codec)
    ck.done(I)


def write(ck, shape, comp):
    I, O = setup(ck)
    fn = ck.fn(M, "write", "SummaryPatch")
    st = State()
    ops = c21.oplist(ck, I, O, st, 0, shape)
    for o in ops:
        st.f.assume_ge0(O.oal(I, st, o).sub(1))
    sp = ck.adt(M, "SummaryPatch")
    et = O.ty(mkty("adt", path=ck.adt(c21.R, "Add").path))
    st.mem[("cell", "out")] = ("O", ("in", "sink"), mkty("param", name=fn.generics[0]))
    args = []
    fmt = None
    for t in fn.args_ty():
        if t.k == "ref":
            args.append(ref(("cell", "out")))
        elif t.k == "adt" and t.path == sp.path:
            args.append(("A", t, 0, (("Q", et, L(len(ops)), ("e", ops) if ops else EMPTY),)))
        elif t.k == "adt" and t.path == OPTION and t.args[0].k == "int":
            args.append(I.opaque_val(("in", "size"), t))
        elif t.k == "adt" and t.path == OPTION and t.args[0].path.endswith("::Format"):
            fmt = I.opaque_val(("in", "format"), t)
            args.append(fmt)
        else:
            args.append(comp_arg(ck, I, t, comp))

    def format(s):
        out = []
        for s2, o in I.variants(s.copy(), fmt):
            out += [default] if o[2] == 0 else variants(I, s2, o[3][0])
        return out
    names = [v[0] for v in ck.adt(C, "Format").variants]
    default = names.index("Interleaved")
    for s, v in I.call_fn(st, fn, args, genv(fn)):
        if is_ok(v):
            judge(ck, I, O, s, list(ops), format, "write", shape)
    panics(ck, I, skip=codec)
    ck.done(I)


def variants(I, s, v):
    """Which format this is: its variant if the analysis looked, else the value itself."""
    k = v[2] if v[0] == "A" else s.var.get(v[1], v)
    return [k]


def sections(ck, I, O, s, fmt, key, text):
    """The operations handed to the section writer, over all sections in order; the headers are judged."""
    bad = None if models.state_tainted(I, s) else False
    hi = {m: i for i, (m, _, _) in enumerate(ck.adt(C, "SectionHeader").variants[0][2])}
    ev = s.events()
    hdrs = [e[2] for e in ev if e[0] == "writeheader" and e[1] == ("in", "sink")]
    secs = [(e[2], e[3]) for e in ev if e[0] == "writeops"]
    if len(hdrs) != len(secs):
        ck.ob(bad, key + ":sections", "there are not as many headers as operation lists (%s)" % text)
        return
    got = []
    for i, (h, (q, h2)) in enumerate(zip(hdrs, secs)):
        l = c21.opsof(I, s, q)
        if l is None:
            ck.undecided(key + ":ops", "a section's operations are not followed")
            return
        got += l
        h = I.expand(h, 0) if h[0] == "O" else h
        f = lambda k: I.proj(s, h, hi[k])
        ck.cond(I, s, key + ":count", ("ceq", f("num_operations").sub(len(l))), "a header's operation count is not that of its section (%s)" % text)
        tot, adds = ZERO, ZERO
        for o in l:
            tot = tot.add(O.oal(I, s, o))
            adds = adds.add(O.adds(I, s, o))
        ck.cond(I, s, key + ":output size", ("ceq", f("output_size").sub(tot)), "a header's output size is not that of its section (%s)" % text)
        ck.cond(I, s, key + ":add bytes", ("ceq", f("num_add_bytes").sub(adds)), "a header's add byte count is not that of its section (%s)" % text)
        more = I.decide(s, f("more_sections"))
        ck.ob(True if more is (i + 1 < len(hdrs)) else bad, key + ":more", "a section's continuation flag does not say whether another one follows (%s)" % text)
        ff = f("format")
        k = ff[2] if ff[0] == "A" else s.var.get(ff[1], ff)
        ck.ob(True if fmt(s) == [k] else bad, key + ":format", "a section is not written in the requested format (%s)" % text)
    return got


def judge(ck, I, O, s, ops, fmt, key, text):
    ck.count("rewritten patches")
    bad = None if models.state_tainted(I, s) else False
    got = sections(ck, I, O, s, fmt, key, text)
    if got is None:
        return
    want, have = c21.meaning(I, O, s, ops, None), c21.meaning(I, O, s, got, None)
    if want is None or have is None:
        ck.undecided(key + ":kind", "an operation's kind is not known")
        return
    ck.cond(I, s, key + ":length", ("ceq", want[1].sub(have[1])), "the rewritten patch's output is not as long as the original's (%s)" % text)
    same = same_seq(I, s, have, want)
    ck.ob(True if same else bad, key + ":content", "the rewritten patch does not produce the original's output (%s)" % text)

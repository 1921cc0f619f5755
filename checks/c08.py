"""C08: a section is delivered only if its operations account exactly for its header, within the section limit."""
from base import *
from opsem import Ops
import contracts

R, D = "smdiff_reader", "smdiff_decoder"
MAXWIN = (1 << 24) - 1


def run(ck):
    ck.section("reader: read_section", section, ck)
    for name in ("next_borrowed", "next_owned"):
        ck.section("reader: " + name, iterator, ck, R, name)
    for name in ("next_borrowed", "next_owned"):
        ck.section("decoder: " + name, iterator, ck, D, name)
    ck.count("delivering exits", ck.counts.get("exits", 0))
    ck.floor("delivering exits", 5)
    return dict(rule="at every exit that delivers a section: number of operations == header count, sum of output lengths == header output size <= 2^24-1, sum of add bytes == header add bytes",
                assumptions=["varint contracts (C12)", "for the decoder's iterator, read_ops_no_comp is used by its contract, which this check establishes on the reader"])


def section(ck):
    I = ck.interp(150)
    contracts.use_varints(ck, I)
    contracts.use_deltas(ck, I)
    O = Ops(ck)
    O.attach(I)
    fn = ck.fn(R, "read_section")
    st = State()
    c = ("cell", "rd")
    st.mem[c] = ("O", ("in", "stream"), mkty("param", name="R"))
    ob = ("cell", "out")
    st.mem[ob] = ("Q", O.ty(mkty("adt", path=ck.adt(R, "Add").path)), ZERO, EMPTY)
    for s, v in I.call_fn(st, fn, [ref(c), ref(ob)], genv(fn)):
        if is_ok(v):
            balanced(ck, I, O, s, I.read(s, ob, ()), v[3][0], "read_section")
    panics(ck, I, "read_section:")
    ck.done(I)


def iterator(ck, crate, name):
    I = ck.interp(250)
    contracts.use_varints(ck, I)
    contracts.use_deltas(ck, I)
    O = Ops(ck)
    O.attach(I)
    if crate == D:
        contracts.use_read_ops(ck, I, O)
        contracts.use_sections(ck, I, O, R)
        contracts.use_nested(ck, I)
    fn = ck.find(crate, name, "SectionIterator")
    if fn is None or (name == "next_owned"):
        fn2 = ck.tfn(crate, "Iterator", "next", "SectionIterator") if name == "next_owned" else ck.fn(crate, name, "SectionIterator")
        fn = fn2
    st = State()
    it = ck.adt(crate, "SectionIterator")
    c = ("cell", "iter")
    st.mem[c] = I.opaque_val(("iter",), mkty("adt", path=it.path, args=(mkty("param", name="R"),)))
    for s, v in I.call_fn(st, fn, [ref(c)], genv(fn)):
        r = some_ok(v)
        if r is None:
            continue
        ops, hdr = I.proj(s, r, 0), I.proj(s, r, 1)
        q = models.slice_q(I, s, ops) if ops[0] == "S" else ops
        balanced(ck, I, O, s, q, hdr, crate + "::" + name)
    ck.done(I)


def some_ok(v):
    """The value in Some(Ok(..))."""
    if v[0] != "A" or v[1].path != OPTION or v[2] != 1:
        return None
    r = v[3][0]
    return r[3][0] if is_ok(r) else None


def balanced(ck, I, O, s, q, hdr, where):
    h = ck.adt("smdiff_common", "SectionHeader")
    hi = {m: i for i, (m, _, _) in enumerate(h.variants[0][2])}
    ck.count("exits")
    if not (isinstance(q, tuple) and q[0] == "Q"):
        ck.undecided(where, "operations not followed")
        return
    f = lambda k: I.proj(s, hdr, hi[k])
    ty = q[1]
    oal = I.qsum(s, ty, q[3], q[2], ("oal", lambda I, st, v: O.oal(I, st, v)))
    adds = I.qsum(s, ty, q[3], q[2], ("adds", lambda I, st, v: O.adds(I, st, v)))
    if oal is None or adds is None:
        ck.undecided(where, "sums not followed")
        return
    ck.cond(I, s, where + ":count", ("ceq", f("num_operations").sub(q[2])), "a section is delivered with another number of operations than its header says")
    ck.cond(I, s, where + ":output", ("ceq", f("output_size").sub(oal)), "a section is delivered whose operations do not produce the output size of its header")
    ck.cond(I, s, where + ":adds", ("ceq", f("num_add_bytes").sub(adds)), "a section is delivered whose add bytes differ from the count in its header")
    ck.cond(I, s, where + ":max", ("cge", L(MAXWIN).sub(oal)), "a section larger than the format's limit is delivered")

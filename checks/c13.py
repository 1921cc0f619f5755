"""C13: applying operations writes exactly the bytes they mean, where they belong."""
from base import *
from opsem import Ops, MAXOP
import contracts

D, R = "smdiff_decoder", "smdiff_reader"


def run(ck):
    for shape in ((1,), (2,), (1, 1), (0, 1), (3,), (2, 1), (1, 1, 1)):
        ck.section("stream sink, sections of %s ops" % (shape,), stream, ck, shape)
        ck.section("memory sink, sections of %s ops" % (shape,), memory, ck, shape)
    ck.section("no source", nosource, ck)
    for n in (1, 2):
        ck.section("further on, %d ops" % n, further, ck, n)
    ck.floor("successful exits", 6)
    return dict(rule="on every successful exit of apply_patch the bytes written are, in order and from position 0 without a gap, what the operations mean: an Add's bytes, "
                     "a Run's byte repeated, the source's bytes at the copy's address, or what the output held at the copy's address after the earlier operations; "
                     "a copy from the source without a source is never a success",
                assumptions=["up to three arbitrary operations in up to three sections (any kind, address, length, content); longer lists repeat the same step from a position of the same form",
                             "the section iterator delivers some operations (C08, C10)", "the sink's position model: reads return what was written there last"])


def setup(ck, shape, sink):
    I = ck.interp(300)
    O = Ops(ck)
    O.attach(I, ("oal",), MAXOP)
    contracts.use_sections(ck, I, O, D)
    I.force_unroll, I.unroll_width = 8, 3000
    fn = ck.fn(D, "apply_patch")
    et = O.ty(mkty("adt", path=ck.adt(R, "Add").path))
    lists = [tuple(("O", ("op", i, j), et) for j in range(n)) for i, n in enumerate(shape)]
    give(ck, I, O, lists)
    st = State()
    for ops in lists:
        for o in ops:
            for k in range(3):
                O.body(I, st, I.expand(o, k))
    P, Rr, Wr = fn.generics[:3]
    st.mem[("cell", "patch")] = ("O", ("in", "patch"), mkty("param", name=P))
    st.mem[("cell", "src")] = ("O", ("in", "src"), mkty("param", name=Rr))
    env = genv(fn)
    if sink == "stream":
        st.mem[("cell", "sink")] = ("O", ("in", "sink"), mkty("param", name=Wr))
    else:
        st.mem[("cell", "buf")] = ("Q", U8, ZERO, EMPTY)
        st.mem[("cell", "sink")] = ("I", "wrap", "cursor", ref(("cell", "buf")), ZERO)
        env[Wr] = mkty("adt", path="std::io::cursor::Cursor", args=(mkty("ref", t=VECU8),))
    return I, O, fn, st, env, mkty("ref", t=mkty("param", name=Rr)), [o for ops in lists for o in ops]


def give(ck, I, O, lists):
    """The section iterator delivers exactly these lists, then ends (or fails, which is not of interest here)."""
    et = None
    for path, f in list(I.contracts.items()):
        if "SectionIterator" not in path:
            continue

        def contract(I, st, path, args, env, dty, site, f=f):
            outs = f(I, st, path, args, env, dty, site)
            if outs is None:
                return None
            (good, gv), (end, nv), _ = outs
            k = good.tag.get("sections", 0)
            if k >= len(lists):
                return [(end, nv)]
            res = gv[3][0]
            pair = res[3][0]
            ops, hdr = pair[3]
            q = ("Q", lists and O.ty(mkty("adt", path=ck.adt(R, "Add").path)), L(len(lists[k])), ("e", lists[k]))
            if ops[0] == "S":
                good.mem[ops[1]] = q
                ops = ops[:4] + (q[2],)
            else:
                ops = q
            good.tag["sections"] = k + 1
            return [(good, ("A", gv[1], 1, (("A", res[1], 0, (("A", pair[1], 0, (ops, hdr)),)),)))]
        I.contracts[path] = contract


def meaning(ck, I, O, s, o, out, pos):
    """(content, length) of what the operation appends to the output, or None if it is not known which kind it is."""
    b = O.body(I, s, o)
    if b is None:
        return None
    k, x = b
    if k == O.v["Add"]:
        return O.addbytes(I, s, x)
    if k == O.v["Run"]:
        return (("rep", I.proj(s, x, O.rf["byte"])), I.proj(s, x, O.rf["len"]))
    src = I.proj(s, x, O.cf["src"])
    w = src[2] if src[0] == "A" else s.var.get(src[1])
    addr, ln = I.proj(s, x, O.cf["addr"]), I.proj(s, x, O.cf["len"])
    if w is None:
        return None
    if w == O.sv["Dict"]:
        return (I.subcontent(s, ("u", ("stream", ("in", "src"))), addr, ln), ln)
    return (out(s, addr, ln), ln)


def expected(ck, I, O, s, ops, out):
    """All that is to be written: (content, length)."""
    parts, tot = [], ZERO
    for o in ops:
        m = meaning(ck, I, O, s, o, lambda s, a, n: out(s, a, n, parts, tot), tot)
        if m is None:
            return None
        parts.append(m)
        tot = s.f.norm(tot.add(m[1]))
    return (I.mkcat(s, tuple((c, s.f.norm(l)) for c, l in parts)) if parts else EMPTY, tot)


def kinds(O, s, ops):
    return " ".join(str([n for n, i in O.v.items() if i == O.variant(s, o)]) for o in ops)


def unknown(ck, I, s, ops, O, key, text):
    ck.ob(None if models.state_tainted(I, s) else False, key, text)


def stream(ck, shape):
    I, O, fn, st, env, rt, ops = setup(ck, shape, "stream")
    sink = ("in", "sink")
    for s, v in I.call_fn(st, fn, [ref(("cell", "patch")), IT.some(rt, ref(("cell", "src"))), ref(("cell", "sink"))], env):
        if not is_ok(v):
            continue
        ck.count("successful exits")
        exp = expected(ck, I, O, s, ops, lambda s, a, n, parts, tot: I.subcontent(s, ("u", ("stream", sink)), a, n))
        if exp is None:
            if all(O.variant(s, o) is None for o in ops) and ops:
                unknown(ck, I, s, ops, O, "looked-at", "apply_patch succeeds without looking at its operations")
            else:
                ck.undecided("kind", "an operation's kind was not looked at")
            continue
        pos, parts = ZERO, []
        where = True
        for e in s.events():
            if e[0] == "write" and e[1] == sink:
                if s.f.prove_eq0(e[2][2]):
                    continue
                if not s.f.prove_eq0(e[3].sub(pos)):
                    where = False
                    unknown(ck, I, s, ops, O, "position", "bytes are written at another position than the end of the output so far: %s" % kinds(O, s, ops))
                    break
                parts.append((e[2][3], s.f.norm(e[2][2])))
                pos = s.f.norm(pos.add(e[2][2]))
        if not where:
            continue
        ck.ok("position")
        ck.cond(I, s, "length", ("ceq", pos.sub(exp[1])), "what is written is not as long as the operations' output")
        same = same_seq(I, s, (I.mkcat(s, tuple(parts)) if parts else EMPTY, pos), exp)
        ck.ob(True if same else (None if models.state_tainted(I, s) else False), "content", "what is written is not what the operations mean: %s" % kinds(O, s, ops))
        order(ck, I, O, s, ops, sink)
    ck.done(I)


def order(ck, I, O, s, ops, sink):
    """A copy from the output reads it when everything before it has been written."""
    need = []
    tot = ZERO
    for o in ops:
        k, x = O.body(I, s, o)
        if k == O.v["Copy"]:
            src = I.proj(s, x, O.cf["src"])
            if (src[2] if src[0] == "A" else s.var.get(src[1])) == O.sv["Output"]:
                need.append((I.proj(s, x, O.cf["addr"]), I.proj(s, x, O.cf["len"]), tot))
        tot = s.f.norm(tot.add(O.oal(I, s, o)))
    pos = ZERO
    reads = []
    for e in s.events():
        if e[0] == "write" and e[1] == sink:
            pos = s.f.norm(pos.add(e[2][2]))
        elif e[0] == "read" and e[1] == sink:
            reads.append((e[2], e[3], pos))
    for a, n, at in need:
        if s.f.prove_eq0(n):
            continue
        hit = [r for r in reads if s.f.prove_eq0(r[0].sub(a)) and s.f.prove_eq0(r[1].sub(n))]
        if not hit:
            # read in several pieces or not followed: the content was compared above
            continue
        ok = any(s.f.prove_eq0(r[2].sub(at)) for r in hit)
        ck.ob(True if ok else (None if models.state_tainted(I, s) else False), "order", "a copy from the output reads it before the earlier operations have been written")


def further(ck, n):
    """A section's operations behind any amount of earlier output."""
    I, O, fn, st, env, rt, ops = setup(ck, (n,), "stream")
    fn = ck.fn(D, "apply_ops")
    sink, P = ("in", "sink"), named(("in", "before"), 0, 1 << 62)
    env = genv(fn)
    kinds_of = [str(fn.locals[i]) for i in range(1, fn.argc + 1)]
    if fn.argc != 4 or not kinds_of[3].endswith("usize"):
        raise Missing("apply_ops(ops, source, sink, position)")
    Rr, Wr = fn.generics[:2]
    rt = mkty("ref", t=mkty("param", name=Rr))
    st.mem[("cell", "src")] = ("O", ("in", "src"), mkty("param", name=Rr))
    st.mem[("cell", "sink")] = ("O", sink, mkty("param", name=Wr))
    st.mem[("cell", "maybe")] = IT.some(rt, ref(("cell", "src")))
    st.mem[("cell", "at")] = P
    models.setpos(st, sink, P)       # (where the section before left off)
    st.mem[("cell", "ops")] = ("Q", O.ty(mkty("adt", path=ck.adt(R, "Add").path)), L(n), ("e", tuple(ops)))
    for s, v in I.call_fn(st, fn, [("S", ("cell", "ops"), (), ZERO, L(n)), ref(("cell", "maybe")), ref(("cell", "sink")), ref(("cell", "at"))], env):
        if not is_ok(v):
            continue
        ck.count("successful exits further on")
        exp = expected(ck, I, O, s, ops, lambda s, a, n, parts, tot: I.subcontent(s, ("u", ("stream", sink)), a, n))
        if exp is None:
            ck.undecided("kind", "an operation's kind was not looked at")
            continue
        pos = P
        for e in s.events():
            if e[0] == "write" and e[1] == sink and not s.f.prove_eq0(e[2][2]):
                ck.cond(I, s, "further:position", ("ceq", e[3].sub(pos)), "bytes are written at another position than the end of the output so far: %s" % kinds(O, s, ops))
                pos = s.f.norm(pos.add(e[2][2]))
        ck.cond(I, s, "further:length", ("ceq", pos.sub(P).sub(exp[1])), "what is written is not as long as the operations' output")
        ck.cond(I, s, "further:told", ("ceq", I.read(s, ("cell", "at"), ()).sub(pos)), "the position kept is not the end of the output")
    ck.done(I)


def memory(ck, shape):
    I, O, fn, st, env, rt, ops = setup(ck, shape, "memory")

    def out(s, a, n, parts, tot):
        c = I.mkcat(s, tuple(parts)) if parts else EMPTY
        return I.subcontent(s, c, a, n)
    for s, v in I.call_fn(st, fn, [ref(("cell", "patch")), IT.some(rt, ref(("cell", "src"))), ref(("cell", "sink"))], env):
        if not is_ok(v):
            continue
        ck.count("successful exits")
        exp = expected(ck, I, O, s, ops, out)
        if exp is None:
            ck.undecided("kind", "an operation's kind was not looked at")
            continue
        q = I.read(s, ("cell", "buf"), ())
        ck.cond(I, s, "buffer length", ("ceq", q[2].sub(exp[1])), "the output is not as long as the operations say")
        same = same_seq(I, s, (q[3], q[2]), exp)
        ck.ob(True if same else (None if models.state_tainted(I, s) else False), "buffer content", "the output is not what the operations mean: %s" % kinds(O, s, ops))
    ck.done(I)


def nosource(ck):
    I, O, fn, st, env, rt, ops = setup(ck, (2,), "stream")
    n = 0
    for s, v in I.call_fn(st, fn, [ref(("cell", "patch")), IT.none(rt), ref(("cell", "sink"))], env):
        if not is_ok(v):
            continue
        n += 1
        for o in ops:
            b = O.body(I, s, o)
            if b is None or b[0] != O.v["Copy"]:
                continue
            src = I.proj(s, b[1], O.cf["src"])
            w = src[2] if src[0] == "A" else s.var.get(src[1])
            bad = w == O.sv["Dict"]
            if bad and s.f.prove_eq0(I.proj(s, b[1], O.cf["len"])):
                bad = False
            ck.ob(True if w is not None and not bad else (None if w is None or models.state_tainted(I, s) else False), "dict-without-source", "a copy from the source succeeds although there is no source")
    ck.count("exits without a source", n)
    ck.done(I)

"""C17: long literals, matches and runs are split into operations losslessly and within the format's limits."""
from base import *
from opsem import Ops, MAXOP
import contracts

E, M = "smdiff_encoder", "smdiff_merger"
MAXRUN = 62


def run(ck):
    for crate in (E, M):
        for name, f in (("make_add_ops", adds), ("make_copy_ops", copies), ("make_run_ops", runs)):
            if (crate, name) == (M, "make_copy_ops"):
                continue
            ck.section("%s: %s" % (crate, name), f, ck, crate, name)
    ck.floor("operations made", 8)
    return dict(rule="at every place where an operation is appended: it means exactly the next bytes of the literal / match / run, its length is 1..=65535 (a Run's 1..=62, an output copy only "
                     "refers to bytes of the same run already appended); at the end the appended lengths add up to the whole",
                assumptions=["literals, matches and runs are shorter than 2^62 bytes"])


def start(ck, crate, name):
    fn = ck.find(crate, name)
    if fn is None:
        ck.undecided("anchor:%s::%s" % (crate, name), "the splitting function %s is not found; its job is done elsewhere" % name)
        raise Missing(name)
    I = ck.interp(150)
    O = Ops(ck)
    O.attach(I, ("oal",))
    st = State()
    et = [t.t.args[0] if t.k == "ref" else t.args[0] for t in fn.args_ty() if vecof(t) and O.isop(vecof(t))][0]
    oc, n0, c0 = O.seq(I, st, "before", et, 1 << 48)
    before = I.qsum(st, et, c0, n0, I.measures[O.isop][0])
    return fn, I, O, st, et, oc, n0, c0, before


def vecof(t):
    if t.k == "ref":
        t = t.t
    return t.args[0] if t.k == "adt" and t.path == VEC else None


def watch(ck, I, O, before, judge, key):
    def push(I, st, q, x, site, v):
        if not O.isop(q[1]):
            return
        ck.count("operations made")
        s = I.qsum(st, q[1], q[3], q[2], I.measures[O.isop][0])
        b = O.body(I, st, x)
        if s is None or b is None:
            ck.undecided(key + ":op", "an operation is appended that is not followed")
            return
        pos = st.f.norm(s.sub(before))
        k, y = b
        name = [n for n, i in O.v.items() if i == k][0]
        ln = O.oal(I, st, x)
        if ln is None:
            ck.undecided(key + ":op", "the length of an operation is not followed")
            return
        ck.cond(I, st, "%s:%s:min" % (key, name), ("cge", ln.sub(1)), "an empty %s is appended" % name)
        ck.cond(I, st, "%s:%s:max" % (key, name), ("cge", L(MAXRUN if name == "Run" else MAXOP).sub(ln)), "a %s longer than the format allows is appended" % name)
        judge(I, st, name, y, ln, pos)
    I.hooks["push"] = [push]


def total(ck, I, O, s, oc, c0, n0, before, want, key):
    q = I.read(s, oc, ())
    t = I.qsum(s, q[1], q[3], q[2], I.measures[O.isop][0]) if q[0] == "Q" else None
    if t is None:
        ck.undecided(key + ":total", "the list is not followed")
        return
    ck.cond(I, s, key + ":total", ("ceq", t.sub(before).sub(want)), "the operations appended do not cover the whole")
    head = q[3]
    if head[0] == "cat":
        ok = head[1][0][0] == c0 and s.f.prove_eq0(head[1][0][1].sub(n0))
    else:
        ok = head == c0 and s.f.prove_eq0(q[2].sub(n0))
    ok = ok or s.f.prove_eq0(n0)
    if ok:
        ck.ob(True, key + ":before", "the earlier operations are untouched")


def adds(ck, crate, name):
    fn, I, O, st, et, oc, n0, c0, before = start(ck, crate, name)
    ty = fn.args_ty()
    n = named(("in", "n"), 0, 1 << 62)
    bc = ("u", ("in", "literal"))
    args = []
    for t in ty:
        if vecof(t) and O.isop(vecof(t)):
            args.append(ref(oc))
        elif vecof(t) and t.k == "adt":
            args.append(("Q", U8, n, bc))
        else:
            st.mem[("cell", "bytes")] = ("Q", U8, n, bc)
            args.append(("S", ("cell", "bytes"), (), ZERO, n))
    key = crate + "::" + name

    def judge(I, s, name, y, ln, pos):
        if name == "Copy":
            ck.ob(None if models.state_tainted(I, s) else False, key + ":kind", "a literal becomes a copy")
            return
        m = (("rep", I.proj(s, y, O.rf["byte"])), ln) if name == "Run" else O.addbytes(I, s, y)
        same = same_seq(I, s, m, (I.subcontent(s, bc, pos, ln), ln))
        ck.ob(True if same else (None if models.state_tainted(I, s) else False), "%s:%s:content" % (key, name), "an operation does not hold the next bytes of the literal")
    watch(ck, I, O, before, judge, key)
    for s, v in I.call_fn(st, fn, args, genv(fn)):
        total(ck, I, O, s, oc, c0, n0, before, n, key)
    panics(ck, I, name + ":")
    ck.done(I)


def copies(ck, crate, name):
    fn, I, O, st, et, oc, n0, c0, before = start(ck, crate, name)
    start_, n = named(("in", "start"), 0, 1 << 62), named(("in", "n"), 0, 1 << 62)
    sty = [t for t in fn.args_ty() if t.k == "adt" and t.path == O.src.path][0]
    src = I.opaque_val(("in", "src"), sty)
    nums = iter((start_, n))
    args = [src if t == sty else ref(oc) if vecof(t) else next(nums) for t in fn.args_ty()]
    key = crate + "::" + name

    def judge(I, s, nm, y, ln, pos):
        if nm != "Copy":
            ck.ob(None if models.state_tainted(I, s) else False, key + ":kind", "a match does not become a copy")
            return
        ck.cond(I, s, key + ":addr", ("ceq", I.proj(s, y, O.cf["addr"]).sub(start_).sub(pos)), "a copy does not start where the previous one ended")
        a = I.proj(s, y, O.cf["src"])
        va, vb = (x[2] if x[0] == "A" else s.var.get(x[1]) for x in (a, src))
        ck.ob(True if a == src or (va is not None and va == vb) else (None if models.state_tainted(I, s) else False), key + ":src", "a copy refers to another source than the match")
    watch(ck, I, O, before, judge, key)
    for s, v in I.call_fn(st, fn, args, genv(fn)):
        total(ck, I, O, s, oc, c0, n0, before, n, key)
    panics(ck, I, name + ":")
    ck.done(I)


def runs(ck, crate, name):
    fn, I, O, st, et, oc, n0, c0, before = start(ck, crate, name)
    byte, n, at = named(("in", "byte"), 0, 255), named(("in", "n"), 0, 1 << 62), named(("in", "at"), 0, 1 << 62)
    nums = iter((n, at))
    args = [byte if t == U8 else ref(oc) if vecof(t) else next(nums) for t in fn.args_ty()]
    key = crate + "::" + name

    def judge(I, s, nm, y, ln, pos):
        if nm == "Run":
            ck.cond(I, s, key + ":byte", ("ceq", I.proj(s, y, O.rf["byte"]).sub(byte)), "a Run of another byte")
        elif nm == "Copy":
            a = I.proj(s, y, O.cf["src"])
            w = a[2] if a[0] == "A" else s.var.get(a[1])
            ck.ob(True if w == O.sv["Output"] else (None if w is None or models.state_tainted(I, s) else False), key + ":src", "part of a run is copied from the source")
            addr = I.proj(s, y, O.cf["addr"])
            ck.cond(I, s, key + ":from", ("cge", addr.sub(at)), "part of a run is copied from before the run")
            ck.cond(I, s, key + ":upto", ("cge", at.add(pos).sub(addr).sub(ln)), "part of a run is copied from output that does not exist yet")
        else:
            m = O.addbytes(I, s, y)
            ck.ob(True if same_seq(I, s, m, (("rep", byte), ln)) else (None if models.state_tainted(I, s) else False), key + ":add", "a literal within a run holds something else")
    watch(ck, I, O, before, judge, key)
    for s, v in I.call_fn(st, fn, args, genv(fn)):
        total(ck, I, O, s, oc, c0, n0, before, n, key)
    panics(ck, I, name + ":")
    ck.done(I)

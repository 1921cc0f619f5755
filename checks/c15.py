"""C15: splitting operations into sections neither loses nor reorders operations, and headers describe the groups."""
from base import *
from opsem import Ops, MAXOP

W = "smdiff_writer"


def run(ck):
    ck.section("sections", sections, ck)
    return dict(rule="for any operation list (each within the per-operation limit) and any requested size: the groups are consecutive slices covering the list, "
                     "each header's counts and sums are those of its slice and within the clamped limit, and exactly the last group is marked final",
                assumptions=["every operation's output length is between 1 and the format's limit for one operation (65535)"])


def sections(ck):
    I = ck.interp(500)
    O = Ops(ck)
    fn = ck.fn(W, "make_sections")
    O.minlen = 1
    ms = dict(O.attach(I, ("oal", "adds"), MAXOP))
    h = ck.adt("smdiff_common", "SectionHeader")
    hi = {n: i for i, (n, _, _) in enumerate(h.variants[0][2])}
    st = State()
    st.f.assume_ge0(L(MAXI))
    oc, n, ct = O.seq(I, st, "ops")
    limit = named(("in", "limit"), 0, (1 << 64) - 1)

    def ispair(t):
        return t.k == "tuple" and len(t.args) == 2 and t.args[1].k == "adt" and t.args[1].path == h.path
    parts = lambda I, st, v: (I.proj(st, v, 0), I.proj(st, v, 1))

    def glen(I, st, v):
        s, _ = parts(I, st, v)
        return s[4] if s[0] == "S" else None

    def final(I, st, v):
        m = I.proj(st, parts(I, st, v)[1], hi["more_sections"])
        return {True: ZERO, False: LN.ONE}.get(I.decide(st, m))
    gm = (("glen", glen), ("final", final))
    I.measures[ispair] = gm
    cnt = {}

    def push(I, st, q, x, site, v):
        if not ispair(q[1]):
            return
        g, hd = parts(I, st, x)
        cnt["push"] = cnt.get("push", 0) + 1
        if g[0] != "S" or g[1] != oc or g[2] != ():
            ck.ob(None if models.state_tainted(I, st) else False, "group-slice", "a group is not a slice of the given operations")
            return
        before = I.qsum(st, q[1], q[3], q[2], gm[0])
        start, ln = g[3], g[4]
        if before is None:
            ck.undecided("consecutive", "length of the groups so far unknown")
        else:
            ck.cond(I, st, "consecutive", ("ceq", start.sub(before)), "a group does not start where the previous one ended")
        f = lambda n: I.proj(st, hd, hi[n])
        oal = I.qsum(st, O.ty(), ct, ln, ("oal", ms["oal"]), start)
        adds = I.qsum(st, O.ty(), ct, ln, ("adds", ms["adds"]), start)
        if oal is not None:
            # every operation produces at least one byte
            st.f.assume_ge0(oal.sub(ln))
        ck.cond(I, st, "header:num_operations", ("ceq", f("num_operations").sub(ln)), "a section header's operation count is not the size of its group")
        ck.cond(I, st, "header:output_size", ("ceq", f("output_size").sub(oal)), "a section header's output size is not what its operations produce")
        ck.cond(I, st, "header:num_add_bytes", ("ceq", f("num_add_bytes").sub(adds)), "a section header's add byte count is not that of its operations")
        ck.cond(I, st, "limit:max", ("cge", L(ck_max(ck)).sub(oal)), "a section's output exceeds the format's section limit")
        for s2, t in I.split(st.copy(), ("cge", limit.sub(MAXOP))):
            if t:
                for s3 in I.assume(s2, ("cge", limit.sub(MAXOP))):
                    ck.cond(I, s3, "limit:requested", ("cge", limit.sub(oal)), "a section's output exceeds the requested section size")
            else:
                ck.cond(I, s2, "limit:small", ("cge", L(MAXOP).sub(oal)), "a section's output exceeds the smallest section size although less was requested")
    I.hooks["push"] = [push]
    outs = I.call_fn(st, fn, [("S", oc, (), ZERO, n), limit], genv(fn))
    for s, v in outs:
        if not (isinstance(v, tuple) and v[0] == "Q"):
            ck.undecided("result", "result not followed")
            continue
        tot = I.qsum(s, v[1], v[3], v[2], gm[0])
        fin = I.qsum(s, v[1], v[3], v[2], gm[1])
        ck.cond(I, s, "covered", ("ceq", tot.sub(n)), "the groups do not cover all operations") if tot is not None else ck.undecided("covered", "?")
        ck.cond(I, s, "one-final", ("ceq", fin.sub(1)), "not exactly one section is marked as the last") if fin is not None else ck.undecided("one-final", "?")
        last = I.elem(s, v, v[2].sub(1))
        m = I.decide(s, I.proj(s, I.proj(s, last, 1), hi["more_sections"]))
        ck.ob(True if m is False else (None if models.state_tainted(I, s) else False), "last-final", "the last section is not marked as the last")
    ck.count("results", len(outs))
    ck.floor("results", 1)
    if not cnt and not ck.und:
        ck.undecided("push", "no group construction seen")
    panics(ck, I)
    ck.done(I)


def ck_max(ck):
    return (1 << 24) - 1

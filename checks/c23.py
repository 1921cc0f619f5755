"""C23: a patch is called a summary exactly when no copy from the dictionary remains."""
from base import *
import c21

M = c21.M


def run(ck):
    for t in ("", "A", "R", "O", "D", "AO", "AD", "DA", "RO", "DO", "OD", "AAO", "ARD"):
        ck.section("terminal %s alone" % t, chain, ck, t)
    for t in ("D", "DD", "AD", "DR", "DO"):
        for p in ("A", "R", "D", "AD", "DA", "RA", "AO", "DO"):
            ck.section("terminal %s, predecessor %s" % (t, p), chain, ck, t, p)
    for t, ps in (("D", ("D", "A")), ("DA", ("RD", "D")), ("D", ("DA", "AD"))):
        ck.section("terminal %s, predecessors %s" % (t, ", ".join(ps)), chain, ck, t, *ps)
    ck.floor("summaries", 4)
    ck.floor("mergers", 4)
    return dict(rule="whenever Merger::new or merge returns a SummaryPatch its operations hold no copy from the dictionary; whenever they return a Merger its operations hold one",
                assumptions=["patches of up to three arbitrary operations (kinds enumerated; all lengths, addresses, contents), chains of up to three patches",
                             "the section iterator delivers some operations (C08, C10)"])


def chain(ck, *a):
    c21.chain(ck, *a, judge=judge)


def judge(ck, I, O, s, q, lists, text, summary):
    ops = c21.opsof(I, s, q)
    if ops is None:
        ck.undecided("ops", "the resulting operations are not followed")
        return
    ck.count("summaries" if summary else "mergers")
    some = False
    for o in ops:
        b = O.body(I, s, o)
        if b is None:
            ck.undecided("kind", "an operation's kind is not known")
            return
        if b[0] == O.v["Copy"]:
            w = I.proj(s, b[1], O.cf["src"])
            w = w[2] if w[0] == "A" else s.var.get(w[1])
            if w is None:
                ck.undecided("source", "a copy's source is not known")
                return
            if w == O.sv["Dict"] and not s.f.prove_eq0(O.oal(I, s, o)):
                some = True
    bad = None if models.state_tainted(I, s) else False
    if summary:
        ck.ob(bad if some else True, "summary", "a SummaryPatch is returned although a copy from the dictionary remains (%s)" % text)
    else:
        ck.ob(True if some else bad, "merger", "a Merger is returned although nothing depends on a predecessor any more (%s)" % text)

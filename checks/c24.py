"""C24: extracting a patch lists its operations, once each, where their output goes, with statistics to match."""
from base import *
from opsem import Ops, MAXOP
import c21, contracts

M = c21.M


def run(ck):
    for shape in ("", "A", "R", "D", "O", "A|R", "D|O", "O|D", "AA|", "|AR", "ADRO", "RA|DO", "O|O|O", "AR|D|A", "DDA|RO"):
        ck.section("patch %s" % shape, extract, ck, shape)
    ck.section("any number of operations", any_number, ck)
    ck.floor("successes", 8)
    return dict(rule="on every successful exit of extract_patch_instructions the list holds the patch's non-empty operations in order, unchanged, each with the sum of the lengths before it, "
                     "and every statistics field is the count or the total length of the operations of its kind",
                assumptions=["patches of up to five operations in up to three sections (kinds enumerated; all lengths, addresses, contents)", "the section iterator delivers some operations (C08, C10)"])


FIELDS_OF = {"add_bytes": ("A", True), "run_bytes": ("R", True), "copy_bytes": ("DO", True), "add_cnt": ("A", False), "run_cnt": ("R", False),
             "copy_d_cnt": ("D", False), "copy_o_cnt": ("O", False), "output_size": ("ARDO", True)}


def extract(ck, shape):
    I = ck.interp(200)
    O = Ops(ck)
    I.force_unroll, I.unroll_width, I.keep_errors = 10, 4000, True
    fn = ck.fn(M, "extract_patch_instructions")
    stats = ck.adt(M, "Stats")
    si = {m: i for i, (m, _, _) in enumerate(stats.variants[0][2])}
    st = State()
    parts = shape.split("|") if shape else [""]
    lists = [c21.oplist(ck, I, O, st, i, p) for i, p in enumerate(parts)]
    kinds = [k for p in parts for k in p]
    ops = [o for l in lists for o in l]
    st.mem[("cell", "patch")] = ("O", ("in", "patch"), mkty("param", name="R"))
    c21.deliver(ck, I, O, {("in", "patch"): lists})
    for s, v in I.call_fn(st, fn, [ref(("cell", "patch"))], genv(fn)):
        if not is_ok(v):
            if not s.tag.get("failed"):
                c21.beyond(ck, I, O, s, [ops], shape)
            continue
        ck.count("successes")
        q, sv = v[3][0][3]
        items = c21.opsof(I, s, q)
        if items is None:
            ck.undecided("list", "the list is not followed")
            continue
        bad = None if models.state_tainted(I, s) else False
        want, pos = [], ZERO
        sums = {k: (ZERO, 0) for k in "ARDO"}
        ok = True
        for k, o in zip(kinds, ops):
            ln = O.oal(I, s, o)
            if s.f.prove_eq0(ln):
                continue
            if not s.f.prove_ge0(ln.sub(1)):
                # whether it is empty was never asked: it must not matter, so take it as not empty
                s.f.assume_ge0(ln.sub(1))
            want.append((pos, o))
            pos = s.f.norm(pos.add(ln))
            b, n = sums[k]
            sums[k] = (s.f.norm(b.add(ln)), n + 1)
        if len(items) != len(want):
            ck.ob(bad, "list", "the list does not hold each operation that produces something exactly once (%s)" % shape)
            continue
        ck.ok("list")
        for it, (p, o) in zip(items, want):
            ip, io = it[3]
            ck.cond(I, s, "position", ("ceq", ip.sub(p)), "an operation is listed at another position than the output before it (%s)" % shape)
            ck.ob(True if same_op(I, O, s, io, o) else bad, "operation", "the list holds another operation than the patch (%s)" % shape)
        sv = I.expand(sv, 0) if sv[0] == "O" else sv
        for name, (ks, total) in FIELDS_OF.items():
            if name not in si:
                ck.undecided("field:" + name, "the statistics have no field " + name)
                continue
            w = ZERO
            for k in ks:
                w = w.add(sums[k][0] if total else L(sums[k][1]))
            ck.cond(I, s, "stats:" + name, ("ceq", I.proj(s, sv, si[name]).sub(w)), "the statistics' %s is not that of the operations (%s)" % (name, shape))
    panics(ck, I)
    ck.done(I)


def any_number(ck):
    """Positions however many operations there are: each one listed goes behind what those listed before it produce."""
    I = ck.interp(200)
    O = Ops(ck)
    O.attach(I, ("oal",), MAXOP)
    contracts.use_sections(ck, I, O, "smdiff_decoder")
    I.keep_errors = True
    fn = ck.fn(M, "extract_patch_instructions")
    st = State()
    total = ("cell", "total")
    st.mem[total] = ZERO
    st.mem[("cell", "patch")] = ("O", ("in", "patch"), mkty("param", name="R"))
    other = []

    def listed(I, s, q, v, site, *a):
        if not (isinstance(v, tuple) and v[0] == "A" and len(v[3]) == 2 and isinstance(v[3][0], Lin)):
            return
        pos, op = v[3]
        was = s.mem[total]
        if I.rec > 0:
            ck.count("operations listed")
            if other:
                ck.undecided("any number", "operations are listed in other ways too")
            else:
                ck.cond(I, s, "position of many", ("ceq", pos.sub(was)), "an operation is listed at another position than the output before it")
        s.mem[total] = s.f.norm(was.add(O.oal(I, s, op)))
    I.hooks["push"] = list(I.hooks.get("push", ())) + [listed]
    I.hooks["extend"] = list(I.hooks.get("extend", ())) + [lambda I, s, *a: other.append(1)]
    I.always = ("push", "extend")
    I.call_fn(st, fn, [ref(("cell", "patch"))], genv(fn))
    ck.done(I)


def same_op(I, O, s, a, b):
    """Are these operations equal?"""
    if a == b:
        return True
    x, y = O.body(I, s, a), O.body(I, s, b)
    if x is None or y is None or x[0] != y[0]:
        return False
    eq = lambda i: s.f.prove_eq0(I.proj(s, x[1], i).sub(I.proj(s, y[1], i)))
    if x[0] == O.v["Run"]:
        return eq(O.rf["byte"]) and eq(O.rf["len"])
    if x[0] == O.v["Copy"]:
        v = lambda z: (lambda w: w[2] if w[0] == "A" else s.var.get(w[1], w))(I.proj(s, z[1], O.cf["src"]))
        return eq(O.cf["addr"]) and eq(O.cf["len"]) and v(x) == v(y)
    p, q = O.addbytes(I, s, x[1]), O.addbytes(I, s, y[1])
    return p is not None and q is not None and same_seq(I, s, p, q)

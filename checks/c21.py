"""C21: merging patches means applying them one after the other."""
from base import *
from opsem import Ops, MAXOP
import contracts

M, R, D = "smdiff_merger", "smdiff_reader", "smdiff_decoder"
KINDS = {"A": ("Add", None), "R": ("Run", None), "D": ("Copy", "Dict"), "O": ("Copy", "Output"), "d": ("Copy", "Dict")}     # d: all of the predecessor's output
SRC = ("u", ("stream", ("in", "src")))


def run(ck):
    for t in ("D", "DD", "AD", "DA", "RD", "DR", "DO", "OD"):
        for p in ("A", "R", "D", "O", "AA", "RR", "DD", "AD", "RA", "DR", "AO", "DO"):
            ck.section("terminal %s, predecessor %s" % (t, p), chain, ck, t, p)
    for t in ("D", "DA", "DO"):
        for p in ("D", "DA", "RD", "DO"):
            for q in ("D", "AR", "DA"):
                if p != "DO" or ck.tier == "thorough":
                    ck.section("terminal %s, predecessors %s, %s" % (t, p, q), chain, ck, t, p, q)
    ck.section("terminal D, predecessors DO, AR", chain, ck, "D", "DO", "AR")
    for t in ("", "A", "AR", "AO", "OA", "ADR", "AOD", "AAO", "DAO"):
        ck.section("terminal %s alone" % t, chain, ck, t)
    for t, ps in (("dDD", ("AD", "A")), ("Ddd", ("ADR", "AR")), ("DAD", ("AD", "R")), ("DDAD", ("AR",)), ("D", ("ADRD",)), ("DD", ("DAD",)), ("DAO", ("DA", "D"))):
        ck.section("terminal %s, predecessors %s, that can be applied" % (t, ", ".join(ps)), valid_chain, ck, t, *ps)
    for ks in ("A", "R", "D", "AD", "DR", "RA", "DD"):
        ck.section("any part of %s anywhere" % ks, part, ck, ks)
    ck.section("output copies resolved, any number", resolved, ck)
    ck.section("longer terminal", chain, ck, "ADR", "DA")
    ck.section("longer predecessor", chain, ck, "D", "ADR")
    ck.floor("merged", 6)
    ck.floor("finished", 6)
    return dict(rule="on every successful path through Merger::new, merge and finish, the resulting operations mean the same output as applying the predecessors first and the terminal patch last; "
                     "on every failing path a stream failed or some copy reaches beyond what precedes it",
                assumptions=["patches of up to three arbitrary operations (kinds enumerated; all lengths, addresses, contents), chains of up to three patches",
                             "the section iterator delivers some operations (C08, C10)"])


def oplist(ck, I, O, st, tag, ks):
    """Arbitrary operations of the given kinds, as the section reader delivers them."""
    et = O.ty(mkty("adt", path=ck.adt(R, "Add").path))
    out = []
    for i, k in enumerate(ks):
        name, src = KINDS[k]
        v = I.expand(("O", ("op", tag, i), et), O.v[name])
        if src is not None:
            x = v[3][0]
            fs = list(x[3])
            fs[O.cf["src"]] = ("A", mkty("adt", path=O.src.path), O.sv[src], ())
            v = v[:3] + ((("A", x[1], x[2], tuple(fs)),),)
        st.f.assume_ge0(L(62 if name == "Run" else MAXOP).sub(O.oal(I, st, v)))
        out.append(v)
    return tuple(out)


def deliver(ck, I, O, by):
    """The section iterator over stream sid delivers the lists by[sid], a section each, then ends; or fails."""
    et = O.ty(mkty("adt", path=ck.adt(R, "Add").path))
    contracts.use_sections(ck, I, O, D)
    for path, f in list(I.contracts.items()):
        if "SectionIterator" not in path:
            continue

        def contract(I, st, path, args, env, dty, site, f=f):
            n0 = len(st.events())
            outs = f(I, st, path, args, env, dty, site)
            if outs is None:
                return None
            (good, gv), (end, nv), (bad, bv) = outs
            at = [e for e in good.events()[n0:] if e[0] == "nextsection"]
            lists = by.get(at[0][1]) if at else None
            if lists is None:
                return None
            sid = at[0][1]
            bad.tag["failed"] = True
            k = good.tag.get(("sections", sid), 0)
            if k >= len(lists):
                return [(end, nv), (bad, bv)]
            res = gv[3][0]
            pair = res[3][0]
            ops, hdr = pair[3]
            q = ("Q", et, L(len(lists[k])), ("e", lists[k]) if lists[k] else EMPTY)
            if ops[0] == "S":
                good.mem[ops[1]] = q
                ops = ops[:4] + (q[2],)
            else:
                ops = q
            good.tag[("sections", sid)] = k + 1
            return [(good, ("A", gv[1], 1, (("A", res[1], 0, (("A", pair[1], 0, (ops, hdr)),)),))), (bad, bv)]
        I.contracts[path] = contract


def opsof(I, s, q):
    """The explicit elements of a sequence, or None."""
    n = s.f.norm(q[2])
    if n.t:
        return None
    return [I.elem(s, q, L(i)) for i in range(n.c)]


def part(ck, ks):
    """Any part of a list of operations that stands anywhere in the output."""
    I = ck.interp(200)
    O = Ops(ck)
    I.force_unroll, I.unroll_width, I.keep_errors = 10, 4000, True
    fn = ck.fn(M, "get_exact_slice")
    st = State()
    ops = oplist(ck, I, O, st, "op", ks)
    at = named(("in", "first"), 0, 1 << 62)
    places, end = [], at
    for o in ops:
        st.f.assume_ge0(O.oal(I, st, o).sub(1))
        places.append((end, o))
        end = end.add(O.oal(I, st, o))
    pt = I.p.fns[fn.path].locals[1]
    pt = pt.t.t if pt.k == "ref" else pt
    st.mem[("cell", "list")] = ("Q", pt, L(len(ops)), ("e", tuple(("A", pt, 0, (p, o)) for p, o in places)))
    start, n = named(("in", "start"), 0, 1 << 62), named(("in", "n"), 1, MAXOP)
    for s, v in I.call_fn(st, fn, [("S", ("cell", "list"), (), ZERO, L(len(ops))), start, n], genv(fn)):
        bad = None if models.state_tainted(I, s) else False
        for s, v in I.variants(s, v):
            if v[2] == 0:
                ck.count("parts refused")
                covered = s.copy()
                covered.f.assume_ge0(start.sub(at))
                covered.f.assume_ge0(end.sub(start).sub(n))
                ck.ob(True if covered.f.dead or covered.f.prove_ge0(L(-1)) else bad, "part:refused", "a part that is there is not found (%s)" % ks)
                continue
            items = opsof(I, s, v[3][0])
            if items is None:
                ck.undecided("part", "the part is not followed")
                continue
            ck.count("parts")
            pos = start
            for it in items:
                p, o = it[3]
                ck.cond(I, s, "part:position", ("ceq", p.sub(pos)), "a piece of a part is listed elsewhere than behind the piece before it (%s)" % ks)
                m = O.oal(I, s, o)
                same_piece(ck, I, O, s, places, p, m, o, bad, ks)
                pos = s.f.norm(p.add(m))
            ck.cond(I, s, "part:length", ("ceq", pos.sub(start).sub(n)), "a part is not as long as asked for (%s)" % ks)
    ck.done(I)


def same_piece(ck, I, O, s, places, p, m, o, bad, ks):
    for at, whole in places:
        if not (s.f.prove_ge0(p.sub(at)) and s.f.prove_ge0(at.add(O.oal(I, s, whole)).sub(p).sub(m))):
            continue
        a, b = O.body(I, s, whole), O.body(I, s, o)
        ok = a is not None and b is not None and a[0] == b[0]
        off = s.f.norm(p.sub(at))
        g = lambda x, i: I.proj(s, x[1], i)
        if ok and a[0] == O.v["Run"]:
            ok = s.f.prove_eq0(g(a, O.rf["byte"]).sub(g(b, O.rf["byte"])))
        elif ok and a[0] == O.v["Copy"]:
            ok = s.f.prove_eq0(g(a, O.cf["addr"]).add(off).sub(g(b, O.cf["addr"])))
        elif ok:
            x, y = O.addbytes(I, s, a[1]), O.addbytes(I, s, b[1])
            ok = x is not None and y is not None and same_seq(I, s, (I.subcontent(s, x[0], off, m), m), y)
        ck.ob(True if ok else bad, "part:piece", "a piece of a part is not what the operation holds there (%s)" % ks)
        return
    ck.ob(bad, "part:piece", "a piece of a part that none of the operations holds (%s)" % ks)


def resolved(ck):
    """Positions when output copies are resolved, however many operations there are."""
    I = ck.interp(200)
    O = Ops(ck)
    O.attach(I, ("oal",), MAXOP)
    I.keep_errors = True
    fn = ck.fn(M, "try_deref_copy_o")
    ex = ck.fn(M, "get_exact_slice")

    def exact(I, st, path, args, env, dty, site):
        s2 = st.copy()
        return [(st, ("A", dty, 0, ())), (s2, ("A", dty, 1, (I.opaque_val(("~part", LN.uid()), dty.args[0]),)))]
    I.contracts[ex.path] = exact
    st = State()
    total = ("cell", "total")
    st.mem[total] = ZERO
    other = []

    def listed(I, s, q, v, site, *a):
        if not (isinstance(v, tuple) and v[0] == "A" and len(v[3]) == 2 and isinstance(v[3][0], Lin)):
            return
        was = s.mem[total]
        if I.rec > 0:
            ck.count("operations listed")
            if other:
                ck.undecided("any number", "operations are listed in other ways too")
            else:
                ck.cond(I, s, "resolved:position", ("ceq", v[3][0].sub(was)), "an operation is listed elsewhere than behind the one before it")
        s.mem[total] = s.f.norm(was.add(O.oal(I, s, v[3][1])))
    I.hooks["push"] = list(I.hooks.get("push", ())) + [listed]
    I.hooks["extend"] = list(I.hooks.get("extend", ())) + [lambda I, s, *a: other.append(1)]
    I.always = ("push", "extend")
    I.call_fn(st, fn, [I.opaque_val(("in", "list"), fn.locals[1])], genv(fn))
    ck.done(I)


def valid_chain(ck, t, *ps):
    chain(ck, t, *ps, valid=True)


def chain(ck, t, *ps, valid=False, judge=None):
    judge = judge or same_output
    I = ck.interp(200)
    O = Ops(ck)
    I.force_unroll, I.unroll_width, I.keep_errors = 10, 4000, True
    new, mrg = ck.fn(M, "new", "Merger"), ck.fn(M, "merge", "Merger")
    fin, take = ck.fn(M, "finish", "Merger"), ck.fn(M, "take_ops", "SummaryPatch")
    st = State()
    lists = [oplist(ck, I, O, st, "t", t)] + [oplist(ck, I, O, st, "p%d" % i, p) for i, p in enumerate(ps)]
    if valid:
        total = None
        for ks, l in zip(reversed((t,) + ps), reversed(lists)):
            pos = ZERO
            for c, o in zip(ks, l):
                k, x = O.body(I, st, o)
                if c == "d":
                    st.f.assume_eq0(I.proj(st, x, O.cf["addr"]))
                    st.f.assume_eq0(O.oal(I, st, o).sub(total))
                if k == O.v["Copy"]:
                    lim = pos if I.proj(st, x, O.cf["src"])[2] == O.sv["Output"] else L((1 << 64) - 1) if total is None else total
                    if lim is not None:
                        st.f.assume_ge0(lim.sub(I.proj(st, x, O.cf["addr"])).sub(O.oal(I, st, o)))
                st.f.assume_ge0(O.oal(I, st, o).sub(1))
                pos = st.f.norm(pos.add(O.oal(I, st, o)))
            total = pos
    streams = {}
    for n, l in enumerate(lists):
        st.mem[("cell", "patch%d" % n)] = ("O", ("in", "patch%d" % n), mkty("param", name="R"))
        streams[("in", "patch%d" % n)] = [l[:1], l[1:]] if len(l) > 1 and (n or len(lists) == 1) else [l]
    deliver(ck, I, O, streams)
    text = " of ".join((t,) + ps)

    def failed(s, used):
        if s.tag.get("failed"):
            return
        ck.count("failed")
        if judge is same_output:
            beyond(ck, I, O, s, lists[:used], text)

    def finals(s, v, used):
        """Result<Result<Merger, SummaryPatch>, _> after `used` patches."""
        if not is_ok(v):
            return failed(s, used)
        v = v[3][0]
        if is_err(v):
            return done(s, v[3][0], used, True)
        m = v[3][0]
        for s2, x in I.call_fn(s.copy(), fin, [m], genv(fin)):
            done(s2, x, used, False)
        if used < len(lists):
            for s2, w in I.call_fn(s, mrg, [m, ref(("cell", "patch%d" % used))], genv(mrg)):
                finals(s2, w, used + 1)

    def done(s, sp, used, summary):
        ck.count("finished" if used == 1 else "merged")
        for s2, q in I.call_fn(s, take, [sp], genv(take)):
            judge(ck, I, O, s2, q, lists[:used], text, summary)
    for s, v in I.call_fn(st, new, [ref(("cell", "patch0"))], genv(new)):
        finals(s, v, 1)
    if judge is same_output:
        panics(ck, I)
    ck.done(I)


def beyond(ck, I, O, s, lists, text):
    """No stream failed, so some copy must reach beyond its source or beyond the output before it."""
    total = None
    for ops in reversed(lists):
        pos = ZERO
        for o in ops:
            k, x = O.body(I, s, o)
            ln = O.oal(I, s, o)
            if k == O.v["Copy"]:
                lim = pos if I.proj(s, x, O.cf["src"])[2] == O.sv["Output"] else L((1 << 64) - 1) if total is None else total
                if s.f.prove_ge0(I.proj(s, x, O.cf["addr"]).add(ln).sub(lim).sub(1)):
                    ck.ok("failures")
                    return
            pos = s.f.norm(pos.add(ln))
        total = pos
    ck.ob(None if models.state_tainted(I, s) else False, "failures", "merging %s fails although no copy reaches beyond what precedes it" % text)


def same_output(ck, I, O, s, q, lists, text, summary):
    ops = opsof(I, s, q)
    if ops is None:
        ck.undecided("ops", "the resulting operations are not followed")
        return
    out = None
    for l in reversed(lists):
        s = applicable(I, O, s, l, out)
        if s is None:
            ck.ok("patches that cannot be applied in turn")
            return
        out = meaning(I, O, s, l, out)
        if out is None:
            break
    got = meaning(I, O, s, ops, None)
    if out is None or got is None:
        ck.undecided("kind", "an operation's kind is not known")
        return
    ck.cond(I, s, "length", ("ceq", out[1].sub(got[1])), "the merged patch's output is not as long as that of the patches in turn (%s)" % text)
    same = same_seq(I, s, got, out)
    ck.ob(True if same else (None if models.state_tainted(I, s) else False), "content", "the merged patch does not produce what the patches produce in turn (%s)" % text)


def applicable(I, O, s, ops, src):
    """The state in which no copy reaches beyond what precedes it, or None."""
    pos = ZERO
    for o in ops:
        k, x = O.body(I, s, o)
        ln = O.oal(I, s, o)
        if k == O.v["Copy"]:
            lim = pos if I.proj(s, x, O.cf["src"])[2] == O.sv["Output"] else L((1 << 64) - 1) if src is None else src[1]
            if lim is not None:
                good = [s2 for s2, yes in I.split(s, I.simp(s, ("cge", lim.sub(I.proj(s, x, O.cf["addr"])).sub(ln)))) if yes and not s2.f.dead]
                if not good:
                    return None
                s = good[0]
        pos = s.f.norm(pos.add(ln))
    return s


def meaning(I, O, s, ops, src):
    """(content, length) of what the operations mean; src: the source's (content, length), by default the unknown original."""
    parts, tot = [], ZERO
    for o in ops:
        b = O.body(I, s, o)
        if b is None:
            return None
        k, x = b
        ln = O.oal(I, s, o)
        if ln is None:
            return None
        if k == O.v["Add"]:
            m = O.addbytes(I, s, x)
        elif k == O.v["Run"]:
            m = (("rep", I.proj(s, x, O.rf["byte"])), ln)
        else:
            w = I.proj(s, x, O.cf["src"])
            w = w[2] if w[0] == "A" else s.var.get(w[1])
            if w is None:
                return None
            base = (SRC if src is None else src[0]) if w == O.sv["Dict"] else I.mkcat(s, tuple(parts))
            m = (I.subcontent(s, base, I.proj(s, x, O.cf["addr"]), ln), ln)
        parts.append((m[0], s.f.norm(m[1])))
        tot = s.f.norm(tot.add(m[1]))
    return (I.mkcat(s, tuple(parts)) if parts else EMPTY, tot)

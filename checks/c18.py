"""C18: what the encoder writes about its matches is the target, all of it, in order."""
from base import *
from opsem import Ops, MAXOP
import c21, c26, contracts

E = "smdiff_encoder"
TRGT = ("u", ("in", "trgt"))
KIND = {"S": "MatchSrc", "T": "MatchTrgt", "R": "Run"}


def run(ck):
    for a in ("", "S", "T", "R"):
        for b in ("", "S", "T", "R"):
            if a or not b:
                ck.section("inner operations %s%s" % (a, b), translate, ck, a + b)
    for t in ("SSS", "TTT", "RRR", "SST", "STS", "TSS", "STT", "SRS", "RSR", "TRT", "RTR", "SSR", "RSS", "TTR", "STR"):
        ck.section("inner operations %s" % t, translate, ck, t)
    for t in ("S", "T", "R", "SS", "TT", "RR", "ST", "TS", "SR", "RS", "TR", "RT"):
        ck.section("inner operations %s, however long" % t, translate, ck, t, True)
    for dict_ in (False, True):
        for comp in (False, True):
            for t in ("", "T", "R") + (() if comp else ("TR",)) + (("S",) if dict_ else ()) + (("SR", "TS") if dict_ and not comp else ()):
                ck.section("encode%s%s, inner operations %s" % (" with a source" if dict_ else "", ", compressed" if comp else "", t), encode, ck, t, dict_, comp)
    ck.floor("lists translated", 8)
    ck.floor("patches encoded", 4)
    return dict(rule="the operations translate_inner_ops returns for matches and runs found in the target (sorted, ending in order, possibly overlapping) are, one after the other, exactly the target: "
                     "an Add holds the target's next bytes, and every Copy and Run lies within a match or run found there, at the same distance from its start; "
                     "encode looks for them in all of the source and the target it is given, and hands exactly those operations to the section writer, with headers to match",
                assumptions=["up to two matches or runs of any length and distance (splitting them by contract, C17), and up to three of at most 65535 bytes (runs 124, 62 if there are three) that far apart; kinds enumerated, all positions and overlaps",
                             "each match or run handed over is a true one (C19)"])


def inner(ck, I, O, st, shape, most=MAXOP, mostrun=124, n=None, srclen=None):
    """(operations, facts): arbitrary true matches and runs; facts are (kind, start or byte, length, position)."""
    A = ck.adt(E, "InnerOp")
    vi = {v[0]: (i, [n for n, _, _ in v[2]]) for i, v in enumerate(A.variants)}
    ty = mkty("adt", path=A.path)
    n = named(("in", "n"), 0, 1 << 62) if n is None else n
    ops, facts, last = [], [], (ZERO, ZERO)
    for i, k in enumerate(shape):
        if KIND[k] not in vi:
            ck.undecided("anchor:InnerOp", "the encoder's matches are represented differently")
            raise Missing("InnerOp::" + KIND[k])
        o, ln = named(("in", "o", i), 0, 1 << 62), named(("in", "len", i), 0, mostrun if k == "R" else most)
        x = named(("in", "byte", i), 0, 255) if k == "R" else named(("in", "start", i), 0, 1 << 62)
        vn, names = vi[KIND[k]]
        val = {"start": x, "byte": x, "length": ln, "o_pos": o}
        if set(names) - set(val):
            ck.undecided("anchor:InnerOp", "the encoder's matches are represented differently")
            raise Missing("InnerOp fields")
        ops.append(("A", ty, vn, tuple(val[m] for m in names)))
        facts.append((k, x, ln, o))
        g = st.f
        g.assume_ge0(n.sub(o).sub(ln))
        g.assume_ge0(o.sub(last[0]))
        g.assume_ge0(o.add(ln).sub(last[0]).sub(last[1]))
        g.assume_ge0(last[0].add(last[1]).add(most).sub(o))
        if k == "S" and srclen is not None:
            g.assume_ge0(srclen.sub(x).sub(ln))
        if k == "T":
            g.assume_ge0(o.sub(x).sub(ln))
        last = (o, ln)
    st.f.assume_ge0(last[0].add(last[1]).add(most).sub(n))
    return ("Q", ty, L(len(ops)), ("e", tuple(ops)) if ops else EMPTY), facts, n


def split_by_contract(ck, I, O):
    """The splitting functions append one stand-in operation each: what it stands for is in the result."""
    made = {}

    def contract(kind):
        def f(I, st, path, args, env, dty, site):
            vec, rest = [], []
            for a in args:
                q = I.read(st, a[1], a[2]) if isinstance(a, tuple) and a[0] == "R" else None
                (vec if q and q[0] == "Q" and O.isop(q[1]) else rest).append(a)
            if len(vec) != 1:
                return None
            q = I.read(st, vec[0][1], vec[0][2])
            x = ("O", ("made", len(made)), q[1])
            if kind == "A":
                b = models.slice_q(I, st, I.models.to_slice(I, st, rest[0]))
                made[x[1]] = ("A", (b[3], b[2]), b[2])
            elif kind == "C":
                w = rest[0][2] if rest[0][0] == "A" else st.var.get(rest[0][1])
                made[x[1]] = ("D" if w == O.sv["Dict"] else "O", rest[1], rest[2])
            else:
                made[x[1]] = ("R", rest[0], rest[1], rest[2])
            I.write(st, vec[0][1], vec[0][2], models.pushq(I, st, q, x))
            return [(st, UNITV)]
        return f
    for name, kind in (("make_add_ops", "A"), ("make_copy_ops", "C"), ("make_run_ops", "R")):
        I.contracts[ck.fn(E, name).path] = contract(kind)
    return made


def stands(I, O, s, d, p, facts, base):
    """Is what the splitting function was asked for what the target has at p?"""
    f, k, ln = s.f, d[0], d[2]

    def within(fact):
        return f.prove_ge0(p.sub(fact[3])) and f.prove_ge0(fact[3].add(fact[2]).sub(p).sub(ln))
    if k == "A":
        return bool(same_seq(I, s, d[1], (I.subcontent(s, base, p, ln), ln)))
    if k == "R":
        return f.prove_eq0(d[3].sub(p)) and any(w[0] == "R" and f.prove_eq0(d[1].sub(w[1])) and within(w) for w in facts)
    if k == "O" and not f.prove_ge0(p.sub(d[1]).sub(ln)):
        return False
    return any(t[0] == {"D": "S", "O": "T"}[k] and f.prove_eq0(d[1].sub(t[1]).sub(p).add(t[3])) and within(t) for t in facts)


def translate(ck, shape, long=False):
    I = ck.interp(150)
    O = Ops(ck)
    made = split_by_contract(ck, I, O) if long else {}
    I.force_unroll, I.unroll_width, I.keep_errors = 12, 4000, True
    fn = ck.fn(E, "translate_inner_ops")
    st = State()
    q, facts, n = inner(ck, I, O, st, shape, 1 << 60, 1 << 60) if long else inner(ck, I, O, st, shape, mostrun=124 if len(shape) < 3 else 62)
    st.mem[("cell", "trgt")] = ("Q", U8, n, TRGT)
    args = []
    for t in fn.args_ty():
        args.append(("S", ("cell", "trgt"), (), ZERO, n) if t.k == "ref" else q)
    for s, v in I.call_fn(st, fn, args, genv(fn)):
        ck.count("lists translated")
        tiles(ck, I, O, s, v, facts, n, made)
    panics(ck, I)
    ck.done(I)


def tiles(ck, I, O, s, v, facts, n, made):
    ops = c21.opsof(I, s, v) if v[0] == "Q" else None
    if ops is None:
        ck.undecided("ops", "the resulting operations are not followed")
        return
    reproduces(ck, I, O, s, ops, facts, n, TRGT, made=made)


def reproduces(ck, I, O, s, ops, facts, n, base, key="", made={}):
    p = ZERO
    bad = None if models.state_tainted(I, s) else False
    for o in ops:
        if o[0] == "O" and o[1] in made:
            d = made[o[1]]
            ck.ob(True if stands(I, O, s, d, p, facts, base) else bad, key + "content:" + d[0], "%s is made that does not stand for the target's bytes at its position" % {"A": "a literal", "R": "a run", "D": "a copy from the source", "O": "a copy from the output"}[d[0]])
            p = s.f.norm(p.add(d[2]))
            continue
        b = O.body(I, s, o)
        if b is None:
            ck.undecided("kind", "an operation's kind is not known")
            return
        ln = O.oal(I, s, o)
        ok, name = justified(I, O, s, b, ln, p, facts, base)
        ck.ob(True if ok else bad, key + "content:" + name, "%s does not produce the target's bytes at its position" % {"A": "an Add", "R": "a Run", "D": "a copy from the source", "O": "a copy from the output"}[name])
        p = s.f.norm(p.add(ln))
    ck.cond(I, s, key + "length", ("ceq", p.sub(n)), "the operations do not produce the whole target")


def justified(I, O, s, b, ln, p, facts, base):
    f = s.f
    k, x = b

    def within(fact):
        return f.prove_ge0(p.sub(fact[3])) and f.prove_ge0(fact[3].add(fact[2]).sub(p).sub(ln))
    want = (I.subcontent(s, base, p, ln), ln)
    if k == O.v["Add"]:
        return same_seq(I, s, O.addbytes(I, s, x), want), "A"
    if k == O.v["Run"]:
        byte = I.proj(s, x, O.rf["byte"])
        if any(w[0] == "R" and f.prove_eq0(byte.sub(w[1])) and within(w) for w in facts):
            return True, "R"
        return same_seq(I, s, (("rep", byte), ln), want), "R"
    w = I.proj(s, x, O.cf["src"])
    w = w[2] if w[0] == "A" else s.var.get(w[1])
    a = I.proj(s, x, O.cf["addr"])
    if w == O.sv["Dict"]:
        return any(t[0] == "S" and f.prove_eq0(a.sub(t[1]).sub(p).add(t[3])) and within(t) for t in facts), "D"
    if not f.prove_ge0(p.sub(a).sub(ln)):
        return False, "O"
    return any(within(t) and (t[0] == "T" and f.prove_eq0(a.sub(t[1]).sub(p).add(t[3])) or t[0] == "R" and f.prove_ge0(a.sub(t[3]))) for t in facts), "O"


def encode(ck, shape, dict_, comp):
    I, O = c26.setup(ck)
    fn, inn = ck.fn(E, "encode"), ck.fn(E, "encode_inner")
    st = State()
    seen = {}
    SRC, OUT = ("in", "source"), ("in", "target")

    def found(I, st, path, args, env, dty, site):
        sl = [I.models.slice_q(I, st, I.models.to_slice(I, st, a)) for a in args if a[0] == "S"]
        if len(sl) != 2:
            return None
        bad = None if models.state_tainted(I, st) else False
        t = [q for q in sl if same_seq(I, st, (q[3], q[2]), whole(I, st, OUT))]
        ck.ob(True if t else bad, "encode:target", "the encoder does not look at the whole target")
        if not t:
            return []
        o = [q for q in sl if q is not t[0]][0]
        ck.ob(True if same_seq(I, st, (o[3], o[2]), whole(I, st, SRC) if dict_ else (EMPTY, ZERO)) else bad, "encode:source", "the encoder does not look at the whole source")
        n = t[0][2]
        q, facts, n = inner(ck, I, O, st, shape, most=MAXOP if len(shape) < 2 else 62, n=n, srclen=o[2], mostrun=62)
        st.tag["found"] = (facts, t[0])
        return [] if st.f.dead else [(st, q)]
    I.contracts[inn.path] = found
    g = fn.generics
    st.mem[("cell", "source")] = ("O", SRC, mkty("param", name=g[0]))
    st.mem[("cell", "target")] = ("O", OUT, mkty("param", name=g[0]))
    st.mem[("cell", "out")] = ("O", ("in", "sink"), mkty("param", name=g[1]))
    args = []
    ci = {m: i for i, (m, _, _) in enumerate(ck.adt(E, "EncoderConfig").variants[0][2])}
    for t in fn.args_ty():
        if t.k == "adt" and t.path == OPTION:
            args.append(("A", t, 1, (ref(("cell", "source")),)) if dict_ else ("A", t, 0, ()))
        elif t.k == "ref" and t.t.k == "adt":
            cfg = I.opaque_val(("in", "config"), t.t)
            cfg = cfg if cfg[0] == "A" else I.expand(cfg, 0)
            fs = list(cfg[3])
            fs[ci["sec_comp"]] = c26.comp_arg(ck, I, fs[ci["sec_comp"]][2] if fs[ci["sec_comp"]][0] == "O" else fs[ci["sec_comp"]][1], comp)
            fmt = fs[ci["format"]]
            st.mem[("cell", "config")] = cfg[:3] + (tuple(fs),)
            args.append(ref(("cell", "config")))
        else:
            args.append(ref(("cell", "target" if t.t.name == g[0] else "out")))
    for s, v in I.call_fn(st, fn, args, genv(fn), keep=True):
        if not is_ok(v):
            continue
        if "found" not in s.tag:
            ck.undecided("encode:anchor", "the search for matches is not called")
            continue
        ck.count("patches encoded")
        facts, t = s.tag["found"]
        ops = c26.sections(ck, I, O, s, lambda s: c26.variants(I, s, fmt), "encode", shape)
        if ops is not None:
            reproduces(ck, I, O, s, ops, facts, t[2], t[3], "encode:")
    panics(ck, I, skip=lambda kind, where, key, o: where.startswith(E + "::encode") or c26.codec(kind, where, key, o))
    ck.done(I)


def whole(I, st, sid):
    """Everything the stream has from where it stood."""
    for e in st.events():
        if e[0] == "read_to_end" and e[1] == sid:
            return (I.subcontent(st, ("u", ("stream", sid)), e[2], e[3]), e[3])
    return (EMPTY, L(-1))

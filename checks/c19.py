"""C19: every match and run the encoder finds is a true one."""
from base import *
import eqs

E = "smdiff_encoder"
SRC, TRGT = ("u", ("in", "src")), ("u", ("in", "trgt"))


def run(ck):
    ck.section("matches in the source", source, ck)
    ck.section("matches in the target", target, ck)
    ck.floor("matches found in the source", 1)
    ck.floor("matches found in the target", 1)
    return dict(rule="find_best_src_match and find_best_trgt_match are followed over a source and a target of any length and "
                     "content with a hash table that answers any hash with any position; a ledger of compared bytes records "
                     "which stretches every path has compared, loops keep it as an invariant together with the claim that the "
                     "best match so far is a true one, and each match returned must lie in both texts (in the target: end "
                     "before where it is used) and be covered by what was compared",
                assumptions=["slice iteration, zip, take_while, rev, starts_with and == of the standard library do as documented (the engine's models)",
                             "debug assertions are off in the encoder: what they compare is not taken for compared"])


def texts(I, st):
    ns, nt = named(("in", "srclen"), 0, 1 << 62), named(("in", "n"), 0, 1 << 62)
    st.mem[("cell", "src")] = ("Q", U8, ns, SRC)
    st.mem[("cell", "trgt")] = ("Q", U8, nt, TRGT)
    I.eqs = {}
    return ("S", ("cell", "src"), (), ZERO, ns), ("S", ("cell", "trgt"), (), ZERO, nt), ns, nt


def matcher(ck, I, st, name, fn):
    t = mkty("adt", path=ck.adt(E, name).path)
    v = I.opaque_val(("in", "matcher"), t)
    v = v if v[0] == "A" else I.expand(v, 0)
    st.mem[("cell", "matcher")] = v
    names = [m for m, _, _ in ck.adt(E, name).variants[0][2]]
    return v, names


def stored(ck, I):
    """The hash tables hold any position for any hash."""
    g = ck.find(E, "get", "BasicHashTable")
    if g is not None:
        def get(I, st, path, args, env, dty, site):
            s2 = st.copy()
            return [(st, ("A", dty, 0, ())), (s2, ("A", dty, 1, (named(("stored", LN.uid()), 0, (1 << 63) - 1),)))]
        I.contracts[g.path] = get
    for g in [f for x, f in ck.p.fns.items() if x.startswith(E + "::") and x.endswith(" as std::iter::Iterator>::next") and str(f.locals[0]).endswith("Option<usize>")]:
        def nxt(I, st, path, args, env, dty, site):
            s2 = st.copy()
            out = [(st, ("A", dty, 0, ()))]
            # (paths that show a violation do with what the table holds itself, or one position more)
            if not I.confirm or I.confirm == 2 and not st.tag.get("chained"):
                if I.confirm:
                    s2.tag["chained"] = True
                out.append((s2, ("A", dty, 1, (named(("stored", LN.uid()), 0, (1 << 63) - 1),))))
            return out
        I.contracts[g.path] = nxt


class Matches:
    """Claim kept by loops: every match held in an Option of (start, length) repeats what is at the position matched."""
    def __init__(self, at, nt):
        self.at, self.nt = at, nt

    def within(self, v):
        return [v[0], v[1], self.at.sub(v[0]).sub(v[1]), self.nt.sub(self.at).sub(v[1])]

    def subjects(self, I, v, p=()):
        if not isinstance(v, tuple) or not v or v[0] != "A":
            return []
        if len(v) > 3 and v[3] and v[2] == 1 and isinstance(v[3][0], tuple) and v[3][0][0] == "A" and len(v[3][0][3]) == 2 \
                and all(isinstance(x, Lin) for x in v[3][0][3]) and len(v[3]) == 1:
            return [(p, v[3][0][3])]
        return []

    def suppose(self, I, st, v):
        for l in self.within(v):
            st.f.assume_ge0(l)
        eqs.given(I, st, TRGT, v[0], TRGT, self.at, v[1])

    def holds(self, I, st, v):
        ok = all(st.f.prove_ge0(l) for l in self.within(v)) and eqs.covers(I, st, TRGT, v[0], TRGT, self.at, v[1])
        return ok

    def retract(self, I, v):
        pass


def source(ck):
    I = ck.interp(200)
    I.keep_errors = True
    if I.confirm:
        I.force_unroll, I.unroll_width = 10, 20
    stored(ck, I)
    fn = ck.find(E, "find_best_src_match", "SrcMatcher")
    st = State()
    s, t, ns, nt = texts(I, st)
    m, names = matcher(ck, I, st, "SrcMatcher", fn)
    at = I.proj(st, m, names.index("fwd_pos"))
    for x, v in I.call_fn(st, fn, [ref(("cell", "matcher")), s, t], genv(fn)):
        for x, v in I.variants(x, v):
            if v[2] != 1:
                continue
            ck.count("matches found in the source")
            sp, pre, post = v[3][0][3]
            f = x.f
            ck.cond(I, x, "source:before", ("cand", ("cge", sp.sub(pre)), ("cge", at.sub(pre))), "a match begins before the source or the target")
            ck.cond(I, x, "source:after", ("cand", ("cge", ns.sub(sp).sub(post)), ("cge", nt.sub(at).sub(post))), "a match ends behind the source or the target")
            if f.prove_ge0(sp.sub(pre)) and f.prove_ge0(at.sub(pre)):
                same(ck, I, x, "source:bytes", (SRC, sp.sub(pre)), (TRGT, at.sub(pre)), pre.add(post))
    ck.done(I)


def same(ck, I, st, key, a, b, n):
    n = st.f.norm(n)
    A = I.subcontent(st, a[0], st.f.norm(a[1]), n) if a[0][0] != "rep" else a[0]
    B = I.subcontent(st, b[0], st.f.norm(b[1]), n) if b[0][0] != "rep" else b[0]
    ok = same_seq(I, st, (A, n), (B, n))
    ck.ob(True if ok else None if models.state_tainted(I, st) else False, key, "bytes that were not all compared are taken for equal: %s" % (I.show(st, n)))


def target(ck):
    I = ck.interp(200)
    I.keep_errors = True
    if I.confirm:
        I.force_unroll, I.unroll_width = 10, 20
    stored(ck, I)
    fn = ck.find(E, "find_best_trgt_match", "TrgtMatcher")
    st = State()
    s, t, ns, nt = texts(I, st)
    m, names = matcher(ck, I, st, "TrgtMatcher", fn)
    at = I.proj(st, m, names.index("fwd_pos"))
    I.truth = Matches(at, nt)
    least = named(("in", "min"), 0, 1 << 62)
    for x, v in I.call_fn(st, fn, [ref(("cell", "matcher")), t, least], genv(fn)):
        for x, v in I.variants(x, v):
            if v[2] != 1:
                continue
            ck.count("matches found in the target")
            sp, n = v[3][0][3]
            ck.cond(I, x, "target:before", ("cge", at.sub(sp).sub(n)), "a match in the target is not over where it is used")
            ck.cond(I, x, "target:after", ("cge", nt.sub(at).sub(n)), "a match ends behind the target")
            same(ck, I, x, "target:bytes", (TRGT, sp), (TRGT, at), n)
    ck.done(I)


class Found:
    """Claim kept by loops: every operation of a list of the encoder's is a true match or run."""
    def __init__(self, ck, ns, nt):
        self.A = ck.adt(E, "InnerOp")
        self.kind = {i: (v[0], [m for m, _, _ in v[2]]) for i, v in enumerate(self.A.variants)}
        self.ns, self.nt = ns, nt
        self.true = set()

    def subjects(self, I, v, p=()):
        if isinstance(v, tuple) and v and v[0] == "Q" and v[1].path == self.A.path:
            return [(p, v)]
        return []

    def suppose(self, I, st, v):
        self.true.add(v[3])

    def retract(self, I, v):
        self.true.discard(v[3])

    def holds(self, I, st, v):
        return not list(self.doubts(I, st, v))

    def unknown(self, I, st, c):
        """The operations a list ends with that are given one by one."""
        while c[0] == "sub":
            c = c[1]
        if c in self.true:
            return []
        if c[0] == "e":
            return list(c[1])
        if c[0] == "cat":
            out = []
            for x in c[1]:
                r = self.unknown(I, st, x[0] if isinstance(x, tuple) and len(x) == 2 and not isinstance(x[0], str) else x)
                if r is None:
                    return None
                out += r
            return out
        return None

    def doubts(self, I, st, v):
        """What is not known to be true of a list's operations: [(key, text)]."""
        if st.f.prove_eq0(v[2]):
            return
        ops = self.unknown(I, st, v[3])
        if ops is None:
            yield None, "operations that come from elsewhere: %r" % (v[3],)
            return
        for x in ops:
            if x[0] != "A" or x[2] not in self.kind:
                yield None, "an operation that is not known"
                continue
            k, names = self.kind[x[2]]
            g = dict(zip(names, x[3]))
            f = st.f
            o, n = g["o_pos"], g["length"]
            if not f.prove_ge0(self.nt.sub(o).sub(n)):
                yield "found:in the target", "%s %s bytes at %s: ends behind the target" % (k, I.show(st, n), I.show(st, o))
                continue
            if k == "Run":
                if not eqs.covers(I, st, TRGT, o, ("rep", g["byte"]), ZERO, n):
                    yield "found:run", "a run of %s bytes at %s that are not all compared" % (I.show(st, n), I.show(st, o))
                continue
            if k == "MatchSrc":
                c, room = SRC, self.ns.sub(g["start"]).sub(n)
            else:
                c, room = TRGT, o.sub(g["start"]).sub(n)
            if not f.prove_ge0(room):
                yield "found:over", "%s: ends behind what there is to copy from" % k
            if not eqs.covers(I, st, c, g["start"], TRGT, o, n):
                yield "found:" + k, "%s of %s bytes at %s that are not all compared" % (k, I.show(st, n), I.show(st, o))


def by_contract(ck, I, st0, ns, nt):
    """The searches in the tables by what is proved of them; the hashes and tables themselves mean nothing here."""
    tables(ck, I)
    for t, m, src in (("SrcMatcher", "find_best_src_match", True), ("TrgtMatcher", "find_best_trgt_match", False)):
        f = ck.find(E, m, t)
        names = [a for a, _, _ in ck.adt(E, t).variants[0][2]]

        def best(I, st, path, args, env, dty, site, src=src, names=names):
            me = I.read(st, args[0][1], args[0][2])
            at = I.proj(st, me, names.index("fwd_pos"))
            s2 = st.copy()
            g = s2.f
            u = LN.uid()
            if src:
                v = tuple(named(("~match", u, i), 0, 1 << 62) for i in range(3))
                for l in (v[0].sub(v[1]), at.sub(v[1]), ns.sub(v[0]).sub(v[2]), nt.sub(at).sub(v[2])):
                    g.assume_ge0(l)
                eqs.given(I, s2, SRC, v[0].sub(v[1]), TRGT, at.sub(v[1]), v[1].add(v[2]))
            else:
                v = tuple(named(("~match", u, i), 0, 1 << 62) for i in range(2))
                for l in (at.sub(v[0]).sub(v[1]), nt.sub(at).sub(v[1])):
                    g.assume_ge0(l)
                eqs.given(I, s2, TRGT, v[0], TRGT, at, v[1])
            tt = dty.args[0]
            out = [(st, ("A", dty, 0, ()))]
            if not g.dead:
                out.append((s2, ("A", dty, 1, (("A", tt, 0, v),))))
            return out
        I.contracts[f.path] = best


MATCHERS = {"S": ("SrcMatcher", 9), "T": ("TrgtMatcher", 4)}


def places(ck, name):
    names = [a for a, _, _ in ck.adt(E, name).variants[0][2]]
    if "fwd_pos" not in names or "max_fwd_hash_pos" not in names:
        raise Missing(name)
    return names.index("fwd_pos"), names.index("max_fwd_hash_pos")


def builders(ck, I, nt):
    """A matcher is built to look at the position asked for (the source's: at most at the last one with enough bytes);
    storing more of the source leaves all but these fields alone (see `built`, `extended`)."""
    for k, (name, hl) in MATCHERS.items():
        pf, pm = places(ck, name)
        ty = mkty("adt", path=ck.adt(E, name).path)
        fs = I.p.adt_fields(ty, 0)

        def build(I, st, path, args, env, dty, site, k=k, ty=ty, fs=fs, pf=pf, pm=pm, hl=hl):
            start = [a for a in args if isinstance(a, Lin)]
            if len(start) != 1:
                return None
            out = []
            for s, last in at_last(st, nt, hl):
                for s2, d in I.split(s, I.simp(s, ("cge", last.sub(start[0]).sub(1)))) if k == "S" else [(s, True)]:
                    v = [I.opaque_val(("~built", LN.uid()), f) for f in fs]
                    v[pf], v[pm] = (start[0] if d else last), last
                    out.append((s2, ("A", ty, 0, tuple(v))))
            return out
        I.contracts[ck.find(E, "build", name + "Config").path] = build
    names = [a for a, _, _ in ck.adt(E, "SrcMatcher").variants[0][2]]

    def more(I, st, path, args, env, dty, site):
        m = [a for a in args if isinstance(a, tuple) and a[0] == "R"]
        if len(m) != 1:
            return None
        old = I.read(st, m[0][1], m[0][2])
        v = [named(("~more", LN.uid()), 0, (1 << 64) - 1) if x in MOVED else I.proj(st, old, i) for i, x in enumerate(names)]
        I.write(st, m[0][1], m[0][2], ("A", old[1], 0, tuple(v)))
        return [(st, UNITV)]
    I.contracts[ck.fn(E, "add_start_positions_to_matcher").path] = more


MOVED = ("next_hash_pos", "cur_window_end")


def at_last(st, nt, hl):
    """(state, last position with hl bytes from it)"""
    a, b = st.copy(), st
    a.f.assume_ge0(nt.sub(hl))
    b.f.assume_ge0(nt.scale(-1).add(hl - 1))
    return [(s, l) for s, l in ((a, nt.sub(hl)), (b, ZERO)) if not s.f.dead]


def built(ck, k):
    I = ck.interp(100)
    I.keep_errors = True
    name, hl = MATCHERS[k]
    tables(ck, I)
    pf, pm = places(ck, name)
    fn = ck.find(E, "build", name + "Config")
    st = State()
    s, t, ns, nt = texts(I, st)
    c = I.opaque_val(("in", "config"), mkty("adt", path=ck.adt(E, name + "Config").path))
    st.mem[("cell", "config")] = I.expand(c, 0) if c[0] == "O" else c
    start = named(("in", "at"), 0, 1 << 62)
    st.f.assume_ge0(nt.sub(start))
    args = [ref(("cell", "config")), s, start, t] if k == "S" else [ref(("cell", "config")), t, start]
    for x, v in I.call_fn(st, fn, args, genv(fn)):
        at, last = I.proj(x, v, pf), I.proj(x, v, pm)
        for y, l in at_last(x, nt, hl):
            ck.cond(I, y, "built:last", ("ceq", last.sub(l)), "a matcher built to stop looking elsewhere than at the last position with %d bytes" % hl)
            for z, d in I.split(y, I.simp(y, ("cge", l.sub(start).sub(1)))) if k == "S" else [(y, True)]:
                ck.cond(I, z, "built:at", ("ceq", at.sub(start if d else l)), "a matcher built to look elsewhere than where it is told")
    ck.done(I)


def extended(ck):
    I = ck.interp(100)
    I.keep_errors = True
    tables(ck, I)
    pf, pm = places(ck, "SrcMatcher")
    fn = ck.fn(E, "add_start_positions_to_matcher")
    st = State()
    s, t, ns, nt = texts(I, st)
    m, names = matcher(ck, I, st, "SrcMatcher", fn)
    o = named(("in", "at"), 0, 1 << 62)
    for x, v in I.call_fn(st, fn, [ref(("cell", "matcher")), o, s], genv(fn)):
        w = I.read(x, ("cell", "matcher"), ())
        for i, name in enumerate(names):
            a, b = I.proj(x, m, i), I.proj(x, w, i)
            if isinstance(a, Lin) and name not in MOVED:
                ck.cond(I, x, "extended:" + name, ("ceq", b.sub(a)), "storing source positions changes the matcher's " + name)
    ck.done(I)


def tables(ck, I):
    def anything(I, st, path, args, env, dty, site):
        return [(st, I.opaque_val(("~any", LN.uid()), dty))]
    for x, f in ck.p.fns.items():
        if x.startswith(E + "::") and "{" not in x and f.argc and str(f.locals[0]) in ("usize", "u32") and "hasher" in x:
            I.contracts[x] = anything
    for t in ("BasicHashTable", "ChainList"):
        for m in ("new", "insert"):
            f = ck.find(E, m, t)
            if f is not None:
                I.contracts[f.path] = anything
    stored(ck, I)


def looking(I, st):
    """Loops are followed apart by whether a matcher has yet come to the last position it looks at."""
    out = {}
    for cell, v in st.mem.items():
        for name, (m, pf, pm) in I.looks.items():
            for x in found(v, m):
                out[name] = I.proj(st, x, pm).sub(I.proj(st, x, pf)).sub(1)
    return out


def found(v, path):
    if isinstance(v, tuple) and v and v[0] == "A":
        if getattr(v[1], "path", None) == path:
            return [v]
        return [y for x in v[3] for y in found(x, path)]
    return []


def whole(ck, which, naive):
    I = ck.interp(400)
    I.keep_errors = True
    fn = ck.fn(E, "encode_inner")
    st = State()
    s, t, ns, nt = texts(I, st)
    by_contract(ck, I, st, ns, nt)
    builders(ck, I, nt)
    I.windows = True
    I.looks = {name: (ck.adt(E, name).path,) + places(ck, name) for name, hl in MATCHERS.values()}
    I.cases = looking
    I.force_unroll, I.unroll_width, I.unroll_even = 5, 20, True
    I.truth = Found(ck, ns, nt)
    ct = mkty("adt", path=ck.adt(E, "GenericEncoderConfig").path)
    fields = []
    for (m, _, _), ft in zip(ck.adt(E, "GenericEncoderConfig").variants[0][2], I.p.adt_fields(ct, 0)):
        want = None
        x = str(ft)
        if "SrcMatcherConfig" in x:
            want = 1 if "S" in which else 0
        elif "TrgtMatcherConfig" in x:
            want = 1 if "T" in which else 0
        elif "NaiveTests" in x:
            want = 0 if naive is None else 1
        v = I.opaque_val(("in", "config", m), ft)
        if want is not None:
            v = I.expand(v, want)
            if want and "NaiveTests" in x:
                v = ("A", v[1], 1, (("A", ft.args[0], naive, ()),))
        fields.append(v)
    st.mem[("cell", "config")] = ("A", ct, 0, tuple(fields))
    for x, v in I.call_fn(st, fn, [ref(("cell", "config")), s, t], genv(fn)):
        ck.count("ways through the encoder's search")
        bad = list(I.truth.doubts(I, x, v))
        if not bad:
            ck.ob(True, "found", "operations")
        for k, text in bad:
            ck.ob(None if k is None or models.state_tainted(I, x) else False, k or "found", text)
    ck.done(I)

"""Loop fixpoints: head states are generalised over what changes, partitioned by the shape of what does not,
and strengthened with affine equalities and linear inequalities that are checked to be inductive."""
from fractions import Fraction
from math import gcd
from lin import *
import lin as LN
from prog import *

MAX_HEADS = 20
MAX_ROUNDS = 14


def fix(I, key, st, step, unroll=False):
    if unroll or I.force_unroll:
        r = unrolled(I, st, step, max(13 if unroll else 0, I.force_unroll), getattr(I, "unroll_width", 400) if I.force_unroll else 40)
        if r is not None:
            return r
    if I.confirm:
        return bounded(I, st, step, I.confirm)
    mine = frozenset()
    if I.eqs is not None and not I.eq_seeding:
        import eqs
        mine = frozenset(eqs.seed(I, st, step))
    I.generalised += 1
    I.loop_depth = getattr(I, "loop_depth", 0) + 1
    try:
        return [x for s in by_cases(I, st) for x in Fix(I, key, s, step, mine).solve()]
    finally:
        I.loop_depth -= 1


def by_cases(I, st):
    """Splits a state by the conditions a check wants loop heads to be told apart by (Interp.cases)."""
    if I.cases is None:
        return [st]
    for k in [k for k in st.tag if isinstance(k, tuple) and k[0] == "case"]:
        del st.tag[k]
    out = [st]
    for k, l in sorted(I.cases(I, st).items()):
        nxt = []
        for s in out:
            for y, d in I.split(s, I.simp(s, ("cge", l))):
                y.tag[("case", k)] = d
                nxt.append(y)
        out = nxt
    return out


def bounded(I, st, step, limit, width=64):
    """Follows a loop round by round without generalising anything; paths with more rounds are not followed.
    Only used to confirm that what could not be proved does fail on a path."""
    frontier = [st]
    exits = []
    for _ in range(limit + 1):
        nxt = []
        for s in frontier:
            c, e = step(s)
            nxt += c
            exits += e
        if len(nxt) > width:
            k = len(nxt)
            nxt = [nxt[i * k // width] for i in range(width)]
        frontier = nxt
        if not frontier:
            break
    return exits


def unrolled(I, st, step, limit=13, width=40):
    frontier = [st.copy()]
    exits = []
    rec, I.rec = I.rec, 0
    log = I.condlog
    I.condlog = None
    try:
        # dry run: does it end?
        for _ in range(limit):
            nxt = []
            for s in frontier:
                c, e = step(s)
                nxt += c
                exits += e
            frontier = nxt
            if not frontier:
                break
            if len(frontier) > width or (I.unroll_even and exits):
                return None
        if frontier:
            return None
    finally:
        I.rec = rec
        I.condlog = log
    if rec <= 0:
        return exits
    frontier = [st]
    exits = []
    while frontier:
        nxt = []
        for s in frontier:
            c, e = step(s)
            nxt += c
            exits += e
        frontier = nxt
    return exits


def special(cell):
    return isinstance(cell, tuple) and cell[0] in ("pos", "out", "op")


class Fix:
    def __init__(self, I, key, st, step, mine=frozenset()):
        self.mine = mine
        self.I, self.key, self.st, self.step = I, key, st, step
        self.uid = LN.uid()
        self.dom = set(st.mem)
        self.tags = set(st.tag)
        self.G = {}           # general numeric position -> type or None
        self.GC = set()       # general content positions
        self.GO = {}          # general opaque positions -> type
        self.vc = set()       # varying cells
        self.vt = set()       # varying tags
        self.nonelem = set()  # sequence positions not tracked element by element
        self.sym0 = len(LN.SYM)

    # ---- shapes -------------------------------------------------------------------
    def leaf_ty(self, ty):
        if ty == "len":
            return ty
        return ty if isinstance(ty, Ty) and ty.k in ("int", "char") else None

    def walk(self, v, pos, out, ty=None):
        """Skeleton of a value; leaves are appended to out as (pos, kind, value, type)."""
        I = self.I
        if isinstance(v, Lin):
            out.append((pos, "n", v, self.leaf_ty(ty)))
            return "n"
        if v is True or v is False or v is None or v == () or isinstance(v, (str, int)):
            return v
        if isinstance(v, Ty):
            return ("ty", v.id)
        k = v[0]
        if k == "A":
            t = v[1]
            fts = None
            if t.k == "adt":
                fts = I.p.adt_fields(t, v[2])
            elif t.k == "tuple":
                fts = t.args
            if fts is None or len(fts) != len(v[3]):
                fts = [None] * len(v[3])
            # a tuple built without type information: use the declared type
            if isinstance(ty, Ty) and ty.k == "tuple" and len(ty.args) == len(v[3]):
                fts = ty.args
            return ("A", t.path if t.k in ("adt", "closure") else t.k, v[2],
                    tuple(self.walk(x, pos + (i,), out, ft) for i, (x, ft) in enumerate(zip(v[3], fts))))
        if k == "O":
            out.append((pos, "o", v, v[2]))
            return ("O", v[2].id)
        if k == "Q":
            c = v[3]
            if pos not in self.nonelem and not I.light:
                if c[0] == "e" and not v[2].t and 0 < len(c[1]) <= 16 and len(c[1]) == v[2].c:
                    return ("Qe", v[1].id, len(c[1]), tuple(self.walk(x, pos + ("e", i), out, v[1]) for i, x in enumerate(c[1])))
            out.append((pos + ("len",), "n", v[2], "len"))
            out.append((pos + ("c",), "c", c, v[1]))
            return ("Q", v[1].id)
        if k == "S":
            p = self.walkpath(v[2], pos + ("p",), out)
            out.append((pos + ("s",), "n", v[3], "len"))
            out.append((pos + ("l",), "n", v[4], "len"))
            return ("S", v[1], p)
        if k == "R":
            return ("R", v[1], self.walkpath(v[2], pos + ("p",), out))
        if k == "I":
            return ("I", v[1]) + tuple(self.walk(x, pos + (i,), out, "len") if isinstance(x, (Lin, tuple, bool, Ty, str, int)) or x is None
                                       else ("?", repr(x)) for i, x in enumerate(v[2:]))
        if k == "F":
            return ("F", v[1], tuple(a.id if isinstance(a, Ty) else a for a in v[2]))
        if k == "str":
            return v
        if k in ("cge", "ceq", "cne", "cnot", "cand", "cor", "cbv"):
            out.append((pos, "b", v, None))
            return "b"
        if k == "i" or k == "v" or k == "w":
            return self.walkpath((v,), pos, out)
        # a path or another plain tuple
        return tuple(self.walk(x, pos + (i,), out) for i, x in enumerate(v))

    def walkpath(self, path, pos, out):
        r = []
        for i, p in enumerate(path):
            if isinstance(p, tuple) and p[0] == "i" and isinstance(p[1], Lin):
                out.append((pos + (i,), "n", p[1], "len"))
                r.append("i")
            else:
                r.append(p)
        return tuple(r)

    def build(self, v, pos, ty=None):
        """v with its general leaves replaced by the head's symbols."""
        if isinstance(v, Lin):
            return self.X(pos) if pos in self.G else v
        if v is True or v is False or v is None or v == () or isinstance(v, (str, int, Ty)):
            return v
        k = v[0]
        if k == "A":
            return ("A", v[1], v[2], tuple(self.build(x, pos + (i,)) for i, x in enumerate(v[3])))
        if k == "O":
            return ("O", ("L", self.uid, pos), v[2]) if pos in self.GO else v
        if k == "Q":
            c = v[3]
            if not self.I.light and pos not in self.nonelem and c[0] == "e" and not v[2].t and 0 < len(c[1]) <= 16 and len(c[1]) == v[2].c:
                return ("Q", v[1], v[2], ("e", tuple(self.build(x, pos + ("e", i)) for i, x in enumerate(c[1]))))
            ln = self.X(pos + ("len",)) if pos + ("len",) in self.G else v[2]
            if pos + ("c",) in self.GC:
                c = ("u", ("L", self.uid, pos))
            return ("Q", v[1], ln, c)
        if k == "S":
            return ("S", v[1], self.buildpath(v[2], pos + ("p",)), self.build(v[3], pos + ("s",)), self.build(v[4], pos + ("l",)))
        if k == "R":
            return ("R", v[1], self.buildpath(v[2], pos + ("p",)))
        if k == "I":
            return ("I", v[1]) + tuple(self.build(x, pos + (i,)) for i, x in enumerate(v[2:]))
        if k in ("F", "str", "cge", "ceq", "cne", "cnot", "cand", "cor", "cbv"):
            return v
        return tuple(self.build(x, pos + (i,)) for i, x in enumerate(v))

    def buildpath(self, path, pos):
        r = []
        for i, p in enumerate(path):
            if isinstance(p, tuple) and p[0] == "i" and isinstance(p[1], Lin) and pos + (i,) in self.G:
                r.append(("i", self.X(pos + (i,))))
            else:
                r.append(p)
        return tuple(r)

    def X(self, pos):
        t = self.G.get(pos)
        lo = hi = None
        if t == "len":
            lo, hi = 0, (1 << 63) - 1
        elif t is not None:
            lo, hi = t.rng()[0], t.rng()[1]
        return S(sym(("var", ("L", self.uid, pos), 0), lo, hi))

    # ---- states -----------------------------------------------------------------------
    def value(self, s, cell):
        v = s.mem.get(cell)
        if v is None and special(cell):
            v = self.I.load(s, cell)
        return v

    def norm_state(self, s):
        """Splits symbolic booleans in varying cells; normalises numbers. Returns a list of states."""
        I = self.I
        work = [s]
        out = []
        while work:
            x = work.pop()
            if x.f.dead:
                continue
            found = None
            for cell in x.mem:
                if cell not in self.dom and not special(cell):
                    continue
                v = x.mem[cell]
                if v is self.st.mem.get(cell):
                    continue
                b = find_bool(v, self.st.mem.get(cell))
                if b is not None:
                    found = b
                    break
            if found is None:
                out.append(x)
                continue
            cond = found
            for y, k in I.split(x, cond):
                for cell in list(y.mem):
                    if cell in self.dom or special(cell):
                        y.mem[cell] = repl_bool(y.mem[cell], cond, k)
                work.append(y)
        return out

    def normv(self, s, v):
        if isinstance(v, Lin):
            return s.f.norm(v)
        if isinstance(v, tuple):
            ch = False
            r = []
            for x in v:
                y = self.normv(s, x) if isinstance(x, (Lin, tuple)) else x
                if y is not x:
                    ch = True
                r.append(y)
            return tuple(r) if ch else v
        return v

    def same(self, s, a, b):
        return a == b or self.normv(s, a) == self.normv(s, b)

    def leaves(self, s, raw=False):
        """(shape key, leaves) of the varying part of a state."""
        out = []
        sk = []
        if raw:
            for cell in self.vcl():
                v = self.value(s, cell)
                if v is not None:
                    self.walk(v, ("m", cell), out, self.I.celltype.get(cell))
            return None, out
        for cell in self.vcl():
            v = self.value(s, cell)
            if v is None:
                sk.append("absent")
            else:
                ct = self.I.celltype.get(cell)
                sk.append(self.walk(self.normv(s, v), ("m", cell), out, ct))
        for t in sorted(self.vt, key=repr):
            v = s.tag.get(t)
            sk.append(self.walk(self.normv(s, v), ("t", t), out) if isinstance(v, (tuple, Lin)) else ("tag", v))
        return tuple(sk), out

    def vcl(self):
        return sorted(self.vc, key=repr)

    def instantiate(self, tmpl, facts=True, cands=()):
        st, I = self.st, self.I
        s = st.copy()
        s.trace = (st.trace, ("loop", self.key))
        for cell in self.vc:
            v = self.value(tmpl, cell)
            if v is None:
                s.mem.pop(cell, None)
            else:
                s.mem[cell] = self.build(self.normv(tmpl, v), ("m", cell))
        for t in self.vt:
            v = tmpl.tag.get(t)
            s.tag[t] = self.build(self.normv(tmpl, v), ("t", t)) if isinstance(v, (tuple, Lin)) else v
        for kind, l in cands:
            if kind == "eq":
                s.f.assume_eq0(l)
            else:
                s.f.assume_ge0(l)
            if s.f.dead:
                break
        if I.cases is not None and not s.f.dead:
            for k, l in sorted(I.cases(I, s).items()):
                d = s.tag.get(("case", k))
                if d is not None and not s.f.dead:
                    s.f.assume_ge0(l if d else l.scale(-1).sub(1))
        return s

    def truths_of(self, s):
        """The values of a state a check's claim (Interp.truth) speaks about: [(place, value)]."""
        out = []
        if self.I.truth is not None:
            for cell in self.vcl():
                v = self.value(s, cell)
                if v is not None:
                    out += [((cell,) + p, x) for p, x in self.I.truth.subjects(self.I, self.normv(s, v))]
        return out

    def suppose(self, s, truths):
        for place, v in self.truths_of(s):
            if place in truths:
                self.I.truth.suppose(self.I, s, v)

    # ---- runs of one value kept in a window that moves along a sequence --------------------------
    def windows(self, heads, trans):
        """Candidates (at, count, value, K, content): the last `count` <= K elements before at + K are all `value`."""
        import eqs
        found = set()
        for _a, _b, c, _v in trans:
            lv = [(pos, c.f.norm(v), ty) for pos, kind, v, ty in self.leaves(c)[1] if kind == "n" and pos in self.G]
            ones = [pos for pos, v, _t in lv if v.is_const() and v.c == 1]
            if not ones:
                continue
            for pb, b, _t in lv:
                e = eqs.element(b) if b.t and not b.c and len(b.t) == 1 else None
                if e is None or e[0][0] != "u":
                    continue
                for pc, at, _t2 in lv:
                    d = c.f.norm(e[1].sub(at))
                    if pc != pb and d.is_const() and 0 <= d.c < 16:
                        found |= {(pc, pl, pb, d.c + 1, e[0]) for pl in ones if pl not in (pb, pc)}
        out = {}
        for sk, h in heads.items():
            have = {pos for pos, kind, _v, _t in h.leaves if kind == "n"}
            out[sk] = sorted((w for w in found if have.issuperset(w[:3])), key=repr)[:6]
        return out

    def window(self, s, w):
        vals = {pos: v for pos, kind, v, _t in self.leaves(s, True)[1] if kind == "n"}
        return vals.get(w[0]), vals.get(w[1]), vals.get(w[2])

    def window_holds(self, s, w):
        import eqs
        at, l, b = self.window(s, w)
        if at is None or l is None or b is None:
            return False
        f = s.f
        if f.prove_ge0(l.sub(w[3] + 1)):
            return True
        if not f.prove_ge0(l):
            return False
        if not f.prove_ge0(l.scale(-1).add(w[3])):
            s = s.copy()
            f = s.f
            f.assume_ge0(l.scale(-1).add(w[3]))
            if f.dead:
                return True
        for x in (at, f.norm(at)):
            if eqs.covers(self.I, s, w[4], x.add(w[3]).sub(f.norm(l)), ("rep", b), ZERO, f.norm(l), True):
                return True
        return False

    def suppose_windows(self, s, wins):
        import eqs
        out = [s]
        for w in wins:
            nxt = []
            for s in out:
                at, l, b = self.window(s, w)
                y, z = s.copy(), s
                y.f.assume_ge0(l.scale(-1).add(w[3]))
                if not y.f.dead:
                    eqs.given(self.I, y, w[4], y.f.norm(at.add(w[3]).sub(l)), ("rep", b), ZERO, l)
                    nxt.append(y)
                z.f.assume_ge0(l.sub(w[3] + 1))
                if not z.f.dead:
                    nxt.append(z)
            out = nxt
        return out

    def diff_cells(self, c):
        """Cells of the domain whose value changed in a continuation."""
        ch = False
        for cell in c.mem:
            if cell in self.vc:
                continue
            if cell not in self.dom:
                if special(cell) and not self.mentions_L(cell) and not self.same(c, c.mem[cell], self.value(self.st, cell)):
                    self.vc.add(cell)
                    ch = True
                continue
            old = self.st.mem[cell]
            new = c.mem[cell]
            if new is not old and not self.same(c, new, old):
                self.vc.add(cell)
                ch = True
        for cell in self.dom:
            if cell not in c.mem and cell not in self.vc:
                self.vc.add(cell)
                ch = True
        for t in set(c.tag) | self.tags:
            if t not in self.vt and c.tag.get(t) != self.st.tag.get(t):
                self.vt.add(t)
                ch = True
        return ch

    def canon(self, c):
        """Gives cells created inside the body but referenced from surviving ones a stable name."""
        ren = {}
        todo = list(self.vc)
        seen = set()
        while todo:
            cell = todo.pop()
            if cell in seen or cell not in c.mem:
                continue
            seen.add(cell)
            for r in refs(c.mem[cell]):
                if r in self.dom or r in ren or (isinstance(r, tuple) and r and r[0] in ("op", "kstr", "k", "lc")):
                    if isinstance(r, tuple) and r and r[0] == "lc":
                        if r not in self.dom and r in c.mem:
                            self.dom.add(r)
                            self.vc.add(r)
                            todo.append(r)
                    continue
                if r in c.mem:
                    n = ("lc", self.uid, cell, len(ren))
                    ren[r] = n
                    todo.append(r)
        if not ren:
            return False
        for cell in list(c.mem):
            if cell in self.vc or cell in ren:
                c.mem[cell] = repl_cell(c.mem[cell], ren)
        new = False
        for o, n in ren.items():
            c.mem[n] = c.mem.pop(o)
            if n not in self.vc:
                self.dom.add(n)
                self.vc.add(n)
                new = True
        return new

    # ---- solving ------------------------------------------------------------------------
    def run(self, s):
        """One pass: continuations (boolean-normalised) and exits."""
        conts, exits = self.step(s)
        out = []
        for c in conts:
            for x in self.norm_state(c):
                out += by_cases(self.I, x)
        return out, exits

    def solve(self):
        I = self.I
        rec = I.rec
        log = I.condlog
        I.rec = 0
        I.condlog = mylog = []
        hope = I.eq_hope
        I.eq_hope = hope | self.mine
        try:
            heads = self.discover()
            if heads is None:                       # the body never comes back to the head
                pass
            elif not I.light:
                self.invariants(heads)
        finally:
            I.eq_hope = hope
            I.rec = rec
            I.condlog = log
            if log is not None and len(log) < 600:
                log += mylog[:200]
        exits = []
        if heads is None:
            I.tick()
            _c, e = self.step(self.st)
            return e
        n = 0
        for sk, h in heads.items():
            s = self.instantiate(h.tmpl, cands=h.cands)
            if s.f.dead:
                continue
            self.suppose(s, h.truths)
            s.mem[("iter", self.uid)] = None
            del s.mem[("iter", self.uid)]
            I.hook("loophead", s, self.key, self)
            n += 1
            for x in self.suppose_windows(s, h.wins):
                exits += self.step(x)[1]
        I.loop_info[(self.where(), self.key)] = {"heads": n, "general": len(self.G) + len(self.GC) + len(self.GO),
                                                 "invariants": sum(len(h.cands) for h in heads.values())}
        return exits

    def where(self):
        return self.I.where()

    def discover(self):
        I = self.I
        heads = {}
        sk, lv = self.leaves(self.st)
        heads[sk] = Head(self.st, lv)
        first = True
        for rnd in range(MAX_ROUNDS):
            I.tick()
            changed = False
            newheads = []
            anyc = False
            arrivals = []
            for h in list(heads.values()):
                s = self.instantiate(h.tmpl)
                conts, _ex = self.run(s)
                for c in conts:
                    anyc = True
                    if self.diff_cells(c):
                        changed = True
                    if self.canon(c):
                        changed = True
                    arrivals.append(c)
            if first and not anyc:
                return None
            first = False
            if changed:
                # shapes depend on the set of varying cells
                tm = [h.tmpl for h in heads.values()]
                heads = {}
                for t in tm:
                    sk, lv = self.leaves(t)
                    if sk not in heads:
                        heads[sk] = Head(t, lv)
                    else:
                        self.generalise(heads[sk], lv, t)
            for c in arrivals:
                sk, lv = self.leaves(c)
                if any(p in self.nonelem for p in ()):
                    pass
                h = heads.get(sk)
                if h is None:
                    # sequences tracked element by element whose length changes: track them as a whole
                    if self.widen_seqs(heads, sk, lv):
                        changed = True
                        tm = [x.tmpl for x in heads.values()]
                        heads = {}
                        for t in tm + [c]:
                            sk2, lv2 = self.leaves(t)
                            if sk2 not in heads:
                                heads[sk2] = Head(t, lv2)
                            else:
                                self.generalise(heads[sk2], lv2, t)
                        continue
                    self.dbg = list(heads)
                    if len(heads) >= MAX_HEADS:
                        from interp import Imprecise
                        raise Imprecise("loop with too many head shapes in " + self.where())
                    heads[sk] = Head(c, lv)
                    changed = True
                else:
                    if self.generalise(h, lv, c):
                        changed = True
            if not changed:
                return heads
        from interp import Imprecise
        raise Imprecise("loop generalisation does not converge in " + self.where())

    def widen_seqs(self, heads, sk, lv):
        """If the new shape differs only in element-wise sequences, stop tracking those element by element."""
        cand = set()
        for hk in heads:
            diffseq(hk, sk, (), cand)
        base = [("m", c) for c in self.vcl()] + [("t", t) for t in sorted(self.vt, key=repr)]
        ok = False
        for p in cand:
            if p is None:
                continue
            root = base[p[0]]
            pos = tuple(root) + p[1:]
            if pos not in self.nonelem and not self.I.light:
                self.nonelem.add(pos)
                ok = True
        return ok

    def generalise(self, h, lv, s):
        ch = False
        for (pos, kind, v, ty), (_p, _k, old, _t) in zip(lv, h.leaves):
            if kind == "n":
                if pos in self.G:
                    continue
                if v != old:
                    self.G[pos] = ty
                    ch = True
            elif kind == "c":
                if pos in self.GC:
                    continue
                if v != old:
                    self.GC.add(pos)
                    ch = True
            elif kind == "o":
                if pos in self.GO:
                    continue
                if v != old:
                    self.GO[pos] = ty
                    ch = True
        # the same leaf in another shape
        return ch

    # ---- invariants -----------------------------------------------------------------------
    def posvals(self, lv):
        return {pos: (kind, v, ty) for pos, kind, v, ty in lv}

    def variables(self, tmpl_state):
        """name -> value of the numeric quantities of a state: general numbers, measure totals, prefix sums."""
        I = self.I
        sk, lv = self.leaves(tmpl_state)
        out = {}
        pv = {}
        for pos, kind, v, ty in lv:
            pv[pos] = (kind, v, ty)
            if kind == "n" and pos in self.G:
                out[("x", pos)] = v
        for pos, (kind, v, ty) in pv.items():
            if kind == "c":
                ms = I.measures_of(ty)
                if not ms:
                    continue
                ln = pv[pos[:-1] + ("len",)][1]
                for m in ms:
                    if pos in self.GC or pos[:-1] + ("len",) in self.G:
                        t = I.qsum(tmpl_state, ty, v, ln, m)
                        if t is not None:
                            out[("sum", pos, m[0])] = t
        # prefix sums at iterator / index positions
        # (of sequences that do not change in the loop)
        varying = {v for pos, (kind, v, ty) in pv.items() if kind == "c" and pos in self.GC}
        seqs = [x for x in self.measured_seqs(tmpl_state) if x[2] not in varying]
        if seqs:
            idx = [(pos, v) for pos, (kind, v, ty) in pv.items() if kind == "n" and pos in self.G]
            cnt = 0
            for sid, ty, c, ln in seqs:
                for pos, v in idx:
                    if cnt > 40:
                        break
                    for m in I.measures_of(ty):
                        cnt += 1
                        t = I.qsum(tmpl_state, ty, c, v, m)
                        if t is not None:
                            out[("pre", sid, pos, m[0])] = t
        return out

    def measured_seqs(self, s):
        I = self.I
        if not I.measures:
            return []
        out = []
        for cell, v in s.mem.items():
            if cell in self.vc or (isinstance(cell, tuple) and cell[0] == "op") or True:
                for path, q in find_q(v, ()):
                    if I.measures_of(q[1]) and q[3] != ("e", ()):
                        out.append(((cell, path), q[1], q[3], q[2]))
        # slices of opaque storage
        for cell, v in s.mem.items():
            for r in find_s(v):
                c = r[1]
                if isinstance(c, tuple) and c[0] == "op" and c not in s.mem:
                    try:
                        q = I.read(s, c, r[2])
                    except Exception:
                        continue
                    if isinstance(q, tuple) and q[0] == "Q" and I.measures_of(q[1]):
                        out.append(((c, r[2]), q[1], q[3], q[2]))
        u = {}
        for x in out:
            u.setdefault(x[0], x)
        return list(u.values())

    def invariants(self, heads):
        I = self.I
        for sk, h in heads.items():
            h.sk = sk
            h.cands = []
        # values at each head and over each transition
        sk0, _ = self.leaves(self.st)
        entry_vals = self.variables(self.st)
        hv = {}
        trans = []
        for sk, h in heads.items():
            s = self.instantiate(h.tmpl)
            if s.f.dead:
                continue
            hv[sk] = self.variables(s)
            h.hs = s.copy()
            conts, _e = self.run(s)
            for c in conts:
                k, lv = self.leaves(c)
                if k in heads:
                    trans.append((sk, k, c, self.variables(c)))
        if not trans:
            return
        xset = self.xset()
        common = None
        for sk in hv:
            ks = set(hv[sk])
            common = ks if common is None else common & ks
        common &= set(entry_vals)
        common = sorted(common, key=lambda v: (v[0] == "x" and "('eq'," in repr(v), repr(v)))[:60]     # ranges in terms of the rest
        # affine equalities; those among plain numbers come first and are used when looking for the others
        eqs = []

        def deltas(names, facts):
            rows = []
            for (a, b, c, vals), f in zip(trans, facts):
                dims = {}
                for i, v in enumerate(names):
                    if v not in vals or v not in hv[a]:
                        continue
                    d = f.norm(vals[v].sub(hv[a][v]))
                    if d.c:
                        dims.setdefault("1", {})[i] = d.c
                    for s, k in d.t:
                        dims.setdefault(s, {})[i] = k
                rows += list(dims.values())
            return rows
        facts = [c.f for _a, _b, c, _v in trans]
        if any(v[0] != "x" for v in common):
            plain = [v for v in common if v[0] == "x"]
            xe = []
            for vec in nullspace(deltas(plain, facts), len(plain)):
                l = ZERO
                for i, k in vec.items():
                    l = l.add(hv[sk0][plain[i]].sub(entry_vals[plain[i]]).scale(k))
                if l.t:
                    xe.append(l)
            if xe:
                facts = [f.copy() for f in facts]
                for f in facts:
                    for l in xe:
                        f.assume_eq0(l)
        rows = deltas(common, facts)
        for vec in nullspace(rows, len(common)):
            l = ZERO
            for i, k in vec.items():
                l = l.add(hv[sk0][common[i]].sub(entry_vals[common[i]]).scale(k))
            eqs.append(l)
        cand = {sk: [] for sk in heads}
        seen = {sk: set() for sk in heads}
        hull = self.affine_hull(heads, sk0, common, hv, entry_vals) if any(v[0] != "x" for v in common) else {}

        def addc(sk, kind, l):
            if not l.t:
                return
            if (kind, l) in seen[sk]:
                return
            seen[sk].add((kind, l))
            cand[sk].append((kind, l))
        for l in eqs:
            for sk in heads:
                addc(sk, "eq", l)
        for sk, ls in hull.items():
            for l in ls:
                addc(sk, "eq", l)
        # per-head constants
        arrive = {}
        arrive.setdefault(sk0, []).append((self.st, entry_vals))
        for (a, b, c, vals) in trans:
            arrive.setdefault(b, []).append((c, vals))
        for sk, arr in arrive.items():
            if sk not in hv:
                continue
            for v, x in hv[sk].items():
                vs = [st.f.norm(vals[v]) for st, vals in arr if v in vals]
                if len(vs) == len(arr) and all(y == vs[0] for y in vs) and not self.mentions_x(vs[0], xset):
                    addc(sk, "eq", x.sub(vs[0]))
                # constant hull
                los, his = [], []
                for (st, vals), y in zip(arr, vs):
                    lo, hi = st.f.interval(y)
                    los.append(lo)
                    his.append(hi)
                if los and None not in los:
                    addc(sk, "ge", x.sub(min(los)))
                if his and None not in his:
                    addc(sk, "ge", L(max(his)).sub(x))
                elo = None
                if sk != sk0 or True:
                    if v in entry_vals:
                        lo, hi = self.st.f.interval(entry_vals[v])
                        if lo is not None:
                            addc(sk, "ge", x.sub(lo))
                        if hi is not None:
                            addc(sk, "ge", L(hi).sub(x))
                        addc(sk, "ge", x.sub(entry_vals[v]))
                        addc(sk, "ge", entry_vals[v].sub(x))
        # differences that only move one way
        nums = [v for v in common]
        if len(nums) <= 26:
            for i, v in enumerate(nums):
                for j, w in enumerate(nums):
                    if i == j:
                        continue
                    mono = True
                    for (a, b, c, vals) in trans:
                        if v not in vals or w not in vals:
                            mono = False
                            break
                        d = vals[v].sub(hv[a][v]).sub(vals[w].sub(hv[a][w]))
                        if not quick_ge0(c.f, d) and not quick_ge0(c.f, vals[v].sub(vals[w]).sub(entry_vals[v]).add(entry_vals[w])):
                            mono = False
                            break
                    if mono:
                        l = hv[sk0][v].sub(entry_vals[v]).sub(hv[sk0][w].sub(entry_vals[w]))
                        for sk in heads:
                            addc(sk, "ge", l)
                        # without the entry offsets, when those are comparable
                        l2 = hv[sk0][v].sub(hv[sk0][w])
                        if l2 != l:
                            for sk in heads:
                                addc(sk, "ge", l2)
        # conditions met in the body
        conds = []
        cs = set()
        for l in I.condlog:
            if l.t and l not in cs:
                cs.add(l)
                conds.append(l)
        conds = conds[:260]
        ok = self.allowed(xset)
        for l in conds:
            if all(ok(s) for s in l.syms()) and any(s in xset for s in l.syms()):
                for sk in heads:
                    addc(sk, "ge", l)
                    addc(sk, "ge", l.add(1))
        for (a, b, c, vals) in trans[:24]:
            mp = {}
            for v in common:
                if v[0] != "x" or v not in vals or v not in hv[a]:
                    continue
                x = hv[a][v].single()
                if x is None:
                    continue
                k = c.f.norm(vals[v].sub(hv[a][v]))
                if k.t and not any(s in xset for s in k.syms()):
                    mp[x] = S(x).sub(k)
                elif not k.t and k.c:
                    mp[x] = S(x).sub(k)
            if not mp:
                continue
            for l in conds:
                if not any(s in mp for s in l.syms()):
                    continue
                r = L(l.c)
                for s, kk in l.t:
                    r = r.add((mp[s] if s in mp else S(s)).scale(kk))
                r = c.f.norm(r)
                if r.t and all(ok(s) for s in r.syms()) and any(s in xset for s in r.syms()):
                    for sk in heads:
                        addc(sk, "ge", r)
        # iteration counting: no loop runs 2^40 times
        steps = self.bounded_growth(common, trans, hv)
        for sk in heads:
            for v, kmax in steps:
                x = hv[sk0][v]
                l = entry_vals[v].add(kmax * I.inf_iters).sub(x)
                addc(sk, "grow", l)
        # filter by entry
        for sk in heads:
            cand[sk] = [x for x in cand[sk] if len(x[1].t) <= 10]
        keep = []
        for kind, l in cand[sk0]:
            r = self.inst(self.st.f, l, hv[sk0], entry_vals, xset)
            if r is None:
                continue
            if kind == "eq":
                if not self.st.f.prove_eq0(r):
                    continue
            elif not self.st.f.prove_ge0(r):
                continue
            keep.append((kind, l))
        cand[sk0] = keep
        # inductive filtering
        I.eq_hope = I.eq_hope - self.mine
        wins = self.windows(heads, trans) if I.windows else {sk: [] for sk in heads}
        wins[sk0] = [w for w in wins[sk0] if self.window_holds(self.st, w)]
        truths = {sk: {p for p, _v in self.truths_of(heads[sk].tmpl)} for sk in heads}
        for p, v in self.truths_of(self.st):
            if p in truths[sk0] and not I.truth.holds(I, self.st, v):
                for sk in heads:
                    truths[sk].discard(p)
        for rnd in range(9):
            I.tick()
            drop = {sk: set() for sk in heads}
            broken = set()
            lost = []
            for sk, h in heads.items():
                s = self.instantiate(h.tmpl, cands=[("ge", l) if k == "grow" else (k, l) for k, l in cand[sk]])
                if s.f.dead:
                    continue
                self.suppose(s, truths[sk])
                conts = [c for x in self.suppose_windows(s, wins[sk]) for c in self.run(x)[0]]
                for c in conts:
                    k, lv = self.leaves(c)
                    if k not in heads:
                        from interp import Imprecise
                        raise Imprecise("unstable loop shapes")
                    lost += [(k, w) for w in wins[k] if not self.window_holds(c, w)]
                    if truths[k]:
                        for p, v in self.truths_of(c):
                            if p in truths[k] and not I.truth.holds(I, c, v):
                                broken.add(p)
                    vals = self.variables(c)
                    for kind, l in cand[k]:
                        if (kind, l) in drop[k] or kind == "grow":
                            continue
                        r = self.inst(c.f, l, hv[k], vals, xset)
                        good = r is not None and (c.f.prove_eq0(r) if kind == "eq" else c.f.prove_ge0(r))
                        if not good:
                            drop[k].add((kind, l))
            # (what is general has one name at every head: a claim holds at all of them or not at all)
            n = len(broken) + len(lost)
            for k, w in lost:
                wins[k] = [x for x in wins[k] if x != w]
            for p in broken:
                for sk in heads:
                    truths[sk].discard(p)
                    for q, v in self.truths_of(self.instantiate(heads[sk].tmpl)):
                        if q == p:
                            I.truth.retract(I, v)
            for sk in heads:
                if drop[sk]:
                    n += len(drop[sk])
                    cand[sk] = [x for x in cand[sk] if x not in drop[sk]]
            if n == 0:
                break
        else:
            for sk in heads:
                cand[sk] = []
                for _p, v in self.truths_of(self.instantiate(heads[sk].tmpl)) if truths[sk] else ():
                    I.truth.retract(I, v)
                truths[sk] = set()
                wins[sk] = []
        for sk, h in heads.items():
            h.truths = truths[sk]
            h.wins = wins[sk]
        for sk, h in heads.items():
            h.cands = [("ge", l) if k == "grow" else (k, l) for k, l in cand[sk]]
        if any(isinstance(self.I.celltype, dict) and p for p in self.GC):
            self.element_bounds(heads)

    def affine_hull(self, heads, sk0, common, hv, entry_vals):
        """The affine equalities among the quantities that hold at each head: starting from the entry values alone,
        the hull is widened by the body's effect until nothing new appears."""
        n = len(common)
        base = [hv[sk0][v] for v in common]
        off = [entry_vals[v] for v in common]
        eqs = {sk: None for sk in heads}
        eqs[sk0] = [{i: Fraction(1)} for i in range(n)]

        def lin(vec):
            l = ZERO
            for i, k in vec.items():
                l = l.add(L(k) if i == n else base[i].sub(off[i]).scale(k))
            return l
        done = {}
        for rnd in range(10):
            self.I.tick()
            posts = []
            for sk, h in heads.items():
                if eqs[sk] is None or done.get(sk) == len(eqs[sk]):
                    continue
                done[sk] = len(eqs[sk])
                s = self.instantiate(h.tmpl, cands=[("eq", lin(intvec(v))) for v in eqs[sk]])
                if s.f.dead:
                    continue
                conts, _e = self.run(s)
                for c in conts:
                    k, lv = self.leaves(c)
                    if k in heads:
                        posts.append((k, c, self.variables(c)))
            change = False
            for k, c, vals in posts:
                u = []
                ok = True
                for i, v in enumerate(common):
                    if v not in vals:
                        ok = False
                        break
                    u.append(c.f.norm(vals[v].sub(off[i])))
                if not ok:
                    return {}
                if eqs[k] is None:
                    old = [{i: Fraction(1)} for i in range(n)] + [{n: Fraction(1)}]
                else:
                    old = eqs[k]
                rows = {}
                for b, vec in enumerate(old):
                    r = {}
                    for i, x in vec.items():
                        if i == n:
                            r["1"] = r.get("1", 0) + x
                            continue
                        if u[i].c:
                            r["1"] = r.get("1", 0) + x * u[i].c
                        for sy, kk in u[i].t:
                            r[sy] = r.get(sy, 0) + x * kk
                    for sy, x in r.items():
                        if x:
                            rows.setdefault(sy, {})[b] = x
                new = []
                for comb in nullspace(list(rows.values()), len(old)):
                    vec = {}
                    for b, x in comb.items():
                        for i, y in old[b].items():
                            z = vec.get(i, 0) + x * y
                            if z:
                                vec[i] = z
                            else:
                                vec.pop(i, None)
                    if vec:
                        new.append(vec)
                if eqs[k] is None or len(new) != len(old):
                    change = True
                eqs[k] = new
            if not change:
                break
        else:
            return {}
        return {sk: [lin(intvec(v)) for v in vs] for sk, vs in eqs.items() if vs}

    def element_bounds(self, heads):
        """Bounds that hold for every element of a growing number sequence: e < X, e <= X (X a head quantity)."""
        I = self.I
        trans = []
        hl = {}
        for sk, h in heads.items():
            s = self.instantiate(h.tmpl, cands=h.cands)
            if s.f.dead:
                continue
            hl[sk] = (s.copy(), {pos: (kind, v, ty) for pos, kind, v, ty in self.leaves(s)[1]})
            conts, _e = self.run(s)
            for c in conts:
                k, lv = self.leaves(c)
                if k in heads:
                    trans.append((sk, k, c, {pos: (kind, v, ty) for pos, kind, v, ty in lv}))
        entry = {pos: (kind, v, ty) for pos, kind, v, ty in self.leaves(self.st)[1]}
        for pos in self.GC:
            e0 = entry.get(pos)
            if e0 is None or not (isinstance(e0[2], Ty) and e0[2].k == "int") or e0[1][0] != "e":
                continue
            olds = [x[1].get(pos) for x in hl.values()]
            if not olds or any(o is None for o in olds):
                continue
            uid = olds[0][1]
            if uid[0] != "u" or any(o[1] != uid for o in olds):
                continue
            facts = []
            bounds = [(p, off) for p in self.G for off in (1, 0)]
            for p, off in bounds:
                x = self.X(p)
                if p not in entry or entry[p][0] != "n":
                    continue
                ex = entry[p][1]
                if not all(self.st.f.prove_ge0(ex.sub(v).sub(off)) for v in e0[1][1]):
                    continue
                good = True
                for a, b, c, vals in trans:
                    q, nx = vals.get(pos), vals.get(p)
                    if q is None or nx is None:
                        good = False
                        break
                    if not self.elems_below(c, q[1], uid, x, nx[1], off):
                        good = False
                        break
                if good:
                    facts.append(("lt", x.sub(off)))
            if facts:
                I.elemfacts[uid[1]] = facts

    def elems_below(self, c, q, uid, old, new, off):
        if q == uid:
            return c.f.prove_ge0(new.sub(old))
        if q[0] == "e":
            return all(isinstance(v, Lin) and c.f.prove_ge0(new.sub(v).sub(off)) for v in q[1])
        if q[0] == "cat":
            return all(self.elems_below(c, p, uid, old, new, off) for p, _l in q[1])
        if q[0] == "upd":
            return isinstance(q[3], Lin) and c.f.prove_ge0(new.sub(q[3]).sub(off)) and self.elems_below(c, q[1], uid, old, new, off)
        if q[0] == "sub":
            return self.elems_below(c, q[1], uid, old, new, off)
        return False

    def bounded_growth(self, common, trans, hv):
        """64-bit accumulators that grow by a bounded amount per iteration."""
        out = []
        for v in common:
            if v[0] != "x":
                continue
            ty = self.G.get(v[1])
            if not (isinstance(ty, Ty) and ty.k == "int" and ty.rng()[2] >= 64):
                continue
            kmax = 0
            for (a, b, c, vals) in trans:
                if v not in vals or v not in hv[a]:
                    kmax = None
                    break
                d = c.f.norm(vals[v].sub(hv[a][v]))
                hi = upper(c.f, d)
                if hi is None:
                    kmax = None
                    break
                kmax = max(kmax, hi)
            if kmax is not None and 0 < kmax <= (1 << 22):
                out.append((v, kmax))
        return out

    def xset(self):
        r = set()
        for pos in self.G:
            r.add(self.X(pos).t[0][0])
        return r

    def allowed(self, xset):
        memo = {}

        def ok(s):
            if s in xset:
                return True
            r = memo.get(s)
            if r is None:
                r = s < self.sym0 or not self.fresh_inside(s)
                memo[s] = r
            return r
        return ok

    def fresh_inside(self, s):
        """Is s (created during the loop) anything but a function of older symbols?"""
        d = LN.SYM[s].d
        if d[0] == "var":
            return not (d[2] == 0 and isinstance(d[1], tuple) and d[1] and d[1][0] in ("el", "pos0", "bytes", "stable") and not self.mentions_L(d[1]))
        return any(self.fresh_in(x) for x in d[1:])

    def fresh_in(self, x):
        if isinstance(x, Lin):
            return any(s >= self.sym0 and self.fresh_inside(s) for s in x.syms())
        if isinstance(x, tuple):
            return any(self.fresh_in(y) for y in x)
        if isinstance(x, frozenset):
            return any(s >= self.sym0 and self.fresh_inside(s) for s, _ in x)
        return False

    def mentions_L(self, x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "L" and x[1] == self.uid:
                return True
            return any(self.mentions_L(y) for y in x)
        if isinstance(x, Lin):
            return any(self.mentions_L(LN.SYM[s].d) for s in x.syms() if s >= self.sym0)
        if isinstance(x, frozenset):
            return any(s >= self.sym0 and self.mentions_L(LN.SYM[s].d) for s, _ in x)
        return False

    def mentions_x(self, l, xset):
        return self.mentions_L(l)

    def inst(self, f, l, headvals, vals, xset):
        """l (over head quantities) with the quantities of another state."""
        mp = {}
        for v, x in headvals.items():
            s = x.single()
            if s is not None:
                if v in vals:
                    mp[s] = vals[v]
                elif s not in mp:
                    mp[s] = None
        r = L(l.c)
        for s, k in l.t:
            if s in mp:
                if mp[s] is None:
                    return None
                r = r.add(mp[s].scale(k))
            elif s in xset or self.mentions_L(LN.SYM[s].d) and s >= self.sym0:
                n = self.rebuild_sym(f, s, mp)
                if n is None:
                    return None
                r = r.add(n.scale(k))
            else:
                r = r.add(S(s).scale(k))
        return r

    def rebuild_sym(self, f, s, mp):
        d = LN.SYM[s].d
        if d[0] in ("div", "mul", "rem", "wrap"):
            args = []
            for a in d[1:]:
                if isinstance(a, Lin):
                    r = L(a.c)
                    for x, k in a.t:
                        if x in mp:
                            if mp[x] is None:
                                return None
                            r = r.add(mp[x].scale(k))
                        elif x >= self.sym0 and self.mentions_L(LN.SYM[x].d):
                            return None
                        else:
                            r = r.add(S(x).scale(k))
                    args.append(r)
                else:
                    args.append(a)
            if d[0] == "wrap":
                return wrap(f, args[0], args[1], args[2])
            return {"div": mk_div, "mul": mk_mul, "rem": mk_rem}[d[0]](f, *args)
        return None


class Head:
    __slots__ = ("tmpl", "leaves", "cands", "sk", "hs", "truths", "wins")

    def __init__(self, tmpl, leaves):
        self.tmpl, self.leaves = tmpl, leaves
        self.cands = []
        self.truths = set()
        self.wins = ()
        self.sk = None
        self.hs = None


def quick_ge0(f, d):
    d = f.norm(d)
    if not d.t:
        return d.c >= 0
    lo, hi = f.interval(d)
    if lo is not None and lo >= 0:
        return True
    if hi is not None and hi < 0:
        return False
    return f.prove_ge0(d)


def upper(f, d):
    lo, hi = f.interval(d)
    return hi


def find_bool(v, old=None):
    """A symbolic boolean in v that was not there at the loop's entry."""
    if isinstance(v, tuple) and v and v is not old:
        k = v[0]
        if k in ("cge", "ceq", "cne", "cnot", "cand", "cor", "cbv"):
            return v if v != old else None
        if k == "A":
            o = old[3] if isinstance(old, tuple) and old and old[0] == "A" and old[2] == v[2] and len(old[3]) == len(v[3]) else None
            for i, x in enumerate(v[3]):
                b = find_bool(x, None if o is None else o[i])
                if b is not None:
                    return b
        elif k == "I":
            o = old if isinstance(old, tuple) and old and old[0] == "I" and len(old) == len(v) else None
            for i, x in enumerate(v[2:]):
                b = find_bool(x, None if o is None else o[i + 2])
                if b is not None:
                    return b
    return None


def repl_bool(v, cond, k):
    if v == cond:
        return k
    if isinstance(v, tuple) and v:
        if v[0] == "A":
            return ("A", v[1], v[2], tuple(repl_bool(x, cond, k) for x in v[3]))
        if v[0] == "I":
            return v[:2] + tuple(repl_bool(x, cond, k) for x in v[2:])
    return v


def refs(v):
    if isinstance(v, tuple) and v:
        k = v[0]
        if k in ("R", "S"):
            yield v[1]
        elif k == "A":
            for x in v[3]:
                yield from refs(x)
        elif k == "I":
            if v[1] == "slice":
                yield v[2]
            for x in v[2:]:
                yield from refs(x)
        elif k == "Q":
            if v[3][0] == "e":
                for x in v[3][1]:
                    yield from refs(x)
            elif v[3][0] == "rep":
                yield from refs(v[3][1])


def repl_cell(v, ren):
    if isinstance(v, tuple) and v:
        k = v[0]
        if k in ("R", "S"):
            return (k, ren.get(v[1], v[1])) + v[2:]
        if k == "A":
            return ("A", v[1], v[2], tuple(repl_cell(x, ren) for x in v[3]))
        if k == "I":
            if v[1] == "slice":
                return ("I", "slice", ren.get(v[2], v[2])) + v[3:]
            return v[:2] + tuple(repl_cell(x, ren) for x in v[2:])
        if k == "Q" and v[3][0] == "e":
            return ("Q", v[1], v[2], ("e", tuple(repl_cell(x, ren) for x in v[3][1])))
    return v


def find_q(v, path):
    if isinstance(v, tuple) and v:
        if v[0] == "Q":
            yield path, v
        elif v[0] == "A":
            for i, x in enumerate(v[3]):
                yield from find_q(x, path + (i,))
        elif v[0] == "I":
            for i, x in enumerate(v[2:]):
                yield from find_q(x, path + ("I", i))


def find_s(v):
    if isinstance(v, tuple) and v:
        if v[0] == "S":
            yield v
        elif v[0] == "R":
            yield v
        elif v[0] == "A":
            for x in v[3]:
                yield from find_s(x)
        elif v[0] == "I":
            if v[1] == "slice":
                yield ("S", v[2], v[3], v[4], v[5])
            for x in v[2:]:
                yield from find_s(x)


def diffseq(a, b, pos, out):
    """Positions where two skeletons differ only by an element-wise sequence."""
    if a == b:
        return
    if isinstance(a, tuple) and isinstance(b, tuple):
        qa = len(a) > 1 and a[0] in ("Qe", "Q")
        qb = len(b) > 1 and b[0] in ("Qe", "Q")
        if qa and qb:
            out.add(pos)
            return
        if a and b and a[0] == "A" and b[0] == "A" and a[1:3] == b[1:3] and len(a) == 4 and len(b) == 4:
            for i, (x, y) in enumerate(zip(a[3], b[3])):
                diffseq(x, y, pos + (i,), out)
            return
        if a and b and a[0] == "I" and b[0] == "I" and a[1] == b[1] and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a[2:], b[2:])):
                diffseq(x, y, pos + (i,), out)
            return
        if pos == () and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                diffseq(x, y, (i,), out)


def intvec(vec):
    """The same equation with integer coefficients."""
    d = 1
    for x in vec.values():
        q = Fraction(x).denominator
        d = d * q // gcd(d, q)
    return {i: int(x * d) for i, x in vec.items()}


def nullspace(rows, n):
    """Integer basis of {a : sum a_i row_i = 0 for every row}; sparse rows {i: k}."""
    piv = {}
    for r in rows:
        r = {i: Fraction(k) for i, k in r.items()}
        while r:
            lead = min(r)
            p = piv.get(lead)
            if p is None:
                k = r[lead]
                r = {i: x / k for i, x in r.items()}
                piv[lead] = r
                break
            k = r[lead]
            for i, x in p.items():
                y = r.get(i, Fraction(0)) - k * x
                if y:
                    r[i] = y
                else:
                    r.pop(i, None)
    # back substitution
    for lead in sorted(piv, reverse=True):
        r = piv[lead]
        for other in list(r):
            if other != lead and other in piv:
                k = r[other]
                for i, x in piv[other].items():
                    y = r.get(i, Fraction(0)) - k * x
                    if y:
                        r[i] = y
                    else:
                        r.pop(i, None)
    out = []
    for free in range(n):
        if free in piv:
            continue
        v = {free: Fraction(1)}
        for lead, r in piv.items():
            if free in r:
                v[lead] = -r[free]
        den = 1
        for x in v.values():
            den = den * x.denominator // gcd(den, x.denominator)
        out.append({i: int(x * den) for i, x in v.items()})
    return out

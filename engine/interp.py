"""Path-partitioned abstract interpreter over MIR.

Every function reachable from an analysed entry is interpreted over abstract values; partitions are split at
branches, loops are brought to a fixpoint (generalised head states with inductive linear invariants).
Nothing is executed: inputs are symbols standing for all values of their type.

Values (immutable):
  Lin                              integers (and chars)
  True/False, ('cge',l) ('ceq',l) ('cne',l) ('cnot',c) ('cand',a,b) ('cor',a,b) ('cbv',uid)    booleans
  ('A', ty, variant, fields)       struct / tuple / enum variant / closure
  ('R', cell, path)                thin reference
  ('S', cell, path, start, len)    slice / str reference
  ('Q', elemty, len, content)      array / Vec / String storage
  ('O', uid, ty)                   opaque value of a type, expanded on demand
  ('I', kind, ...)                 std iterator adaptor
  ('F', path, args)                fn item
  ('str', text)                    string literal
Contents: ('e',(v..)) ('rep',v) ('u',uid) ('sub',content,start) ('cat',((content,len)..)) ('upd',content,idx,val)
"""
import re
from lin import *
import lin as LN
from prog import *
import prog as PG


class Imprecise(Exception):
    """The analysis cannot follow this construct."""


class Budget(Exception):
    pass


class State:
    __slots__ = ("mem", "f", "var", "trace", "tag", "notes")

    def __init__(self):
        self.mem = {}
        self.f = Facts()
        self.var = {}       # opaque uid -> variant / bool
        self.trace = None   # linked list of events (parent, event)
        self.tag = {}       # per-analysis ghost data (immutable values)
        self.notes = ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.f = self.f.copy()
        s.var = dict(self.var)
        s.trace = self.trace
        s.tag = dict(self.tag)
        s.notes = self.notes
        return s

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Frame:
    __slots__ = ("fn", "env", "cells", "id", "depth", "parent", "site")


RANGE_ADTS = {"core::ops::range::Range": "Range", "core::ops::range::RangeInclusive": "RangeInclusive",
              "core::ops::range::RangeFrom": "RangeFrom", "core::ops::range::RangeTo": "RangeTo",
              "core::ops::range::RangeFull": "RangeFull", "core::ops::range::RangeToInclusive": "RangeToInclusive"}
VEC = "alloc::vec::Vec"
STRING = "alloc::string::String"
OPTION = "core::option::Option"
RESULT = "core::result::Result"


def opt_ty(t):
    return mkty("adt", path=OPTION, args=(t,))


def none(t):
    return ("A", opt_ty(t), 0, ())


def some(t, v):
    return ("A", opt_ty(t), 1, (v,))


def res_ty(t, e):
    return mkty("adt", path=RESULT, args=(t, e))


UNITV = ("A", UNIT, 0, ())
EMPTY = ("e", ())


class Interp:
    def __init__(self, prog, max_states=60000, budget=400.0):
        self.p = prog
        self.rec = 1
        self.oblig = {}          # key -> dict(status, n, sites)
        self.hooks = {}
        self.contracts = {}      # fn path -> python model
        self.opaque = set()      # fn paths treated as unknown
        self.cellctr = 0
        self.kmem = {}           # cells of constants
        self.kconst = {}
        self.closure_env = {}
        self.callstack = []
        self.measures = {}       # elem type path predicate -> functions
        self.loops_done = []
        self.condlog = None
        self.unmodelled = {}
        self.steps = 0
        self.max_states = max_states
        import time
        self.t0 = time.time()
        self.budget = budget
        self.fn_seen = set()
        self.calls_seen = 0
        self.loop_info = {}
        self.inf_iters = 1 << 40
        self.confirm = 0        # >0: loops are followed for that many rounds only, nothing is generalised
        self.wraps = set()      # functions where arithmetic may really wrap around
        self.generalised = 0    # loops that were brought to a fixpoint
        self.unroll_even = False # loops whose number of rounds is not known are not unrolled
        self.force_unroll = 0    # >0: loops that provably end within that many rounds are not generalised
        self.elemfacts = {}      # content uid -> upper bounds of its elements
        self.celltype = {}       # cell -> declared type
        self.panic_quiet = set()
        self.stream_read = None
        self.hp = "?"            # prefix of what is forgotten ("?": marked as not followed)
        self.pre_call = None     # called before anything else: models a call itself, or None
        self.on_unknown = None
        self.light = False       # which paths there are matters, not the numbers: no invariants, no overflow checks
        self.bsearch_model = None
        self.keep_errors = False # error outcomes are kept apart
        self.eqs = None          # the ledger of equal ranges (eqs.py), if kept
        self.eq_hope = frozenset()
        self.windows = False
        self.always = ()         # hooks called on every pass of a loop, not only on the last
        self.cases = None        # conditions loop heads are told apart by: (I, state) -> {name: Lin meaning >= 0}
        self.truth = None        # a claim about values that loops may keep true (loops.py)
        self.eq_seeding = False
        self.in_bounded = []
        self.bound_outer = {}    # fn path -> rounds its outermost loops are followed for
        import models
        self.models = models

    # ---- bookkeeping -----------------------------------------------------------
    def hook(self, name, st, *a):
        if self.rec <= 0 and name not in self.always:
            return
        for h in self.hooks.get(name, ()):
            h(self, st, *a)

    def tick(self):
        self.steps += 1
        if self.steps & 255 == 0:
            import time
            if time.time() - self.t0 > self.budget:
                raise Budget("time budget exceeded")

    def where(self):
        return self.callstack[-1][0].path if self.callstack else "?"

    def stack(self):
        return [f.path for f, _ in self.callstack]

    def newcell(self):
        self.cellctr += 1
        return self.cellctr

    def note_unmodelled(self, what):
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1

    def oblige(self, st, kind, key, ok, detail="", sp=""):
        """Records a proof obligation of the given kind at the current point."""
        if self.rec <= 0:
            return
        k = (kind, self.where(), key)
        o = self.oblig.get(k)
        if o is None:
            o = self.oblig[k] = {"n": 0, "bad": [], "und": []}
        o["n"] += 1
        if ok is True:
            return
        rec = {"detail": detail, "sp": sp, "stack": self.stack(), "facts": None}
        (o["und"] if ok is None else o["bad"]).append(rec)

    # ---- opaque values -----------------------------------------------------------
    def opaque_val(self, uid, ty):
        k = ty.k
        if k == "int" or k == "char":
            lo, hi, _, _ = ty.rng()
            return named(uid, lo, hi)
        if k == "bool":
            return ("cbv", uid)
        if k == "tuple":
            return ("A", ty, 0, tuple(self.opaque_val((uid, i), t) for i, t in enumerate(ty.args)))
        if k == "array":
            n = ty.len if isinstance(ty.len, int) else None
            ln = L(n) if n is not None else named((uid, "len"), 0, None)
            return ("Q", ty.t, ln, ("u", uid))
        if k == "adt" and ty.path in (VEC, STRING):
            et = ty.args[0] if ty.path == VEC else U8
            return ("Q", et, named((uid, "len"), 0, (1 << 63) - 1), ("u", uid))
        if k in ("slice", "str"):
            et = ty.t if k == "slice" else U8
            return ("Q", et, named((uid, "len"), 0, (1 << 63) - 1), ("u", uid))
        if k == "ref" or k == "ptr":
            c = ("op", uid, ty.t)
            if ty.t.k in ("slice", "str"):
                return ("S", c, (), ZERO, named((uid, "len"), 0, (1 << 63) - 1))
            return ("R", c, ())
        if k == "fndef":
            return ("F", ty.path, ty.args)
        if k == "never":
            return ("O", uid, ty)
        if k == "adt":
            a = self.p.adts.get(ty.path)
            if a is not None and a.full and a.kind == "struct":
                fs = self.p.adt_fields(ty, 0)
                return ("A", ty, 0, tuple(self.opaque_val((uid, i), t) for i, t in enumerate(fs)))
        return ("O", uid, ty)

    def fresh_val(self, name, ty):
        return self.opaque_val((name, LN.uid()), ty)

    def havoc_val(self, ty, why="?"):
        return self.opaque_val((self.hp + why, LN.uid()), ty)

    def expand(self, v, variant):
        """('A', ...) form of an opaque enum value in the given variant."""
        _, u, ty = v
        fs = self.p.adt_fields(ty, variant)
        if fs is None:
            raise Imprecise("cannot expand " + str(ty))
        return ("A", ty, variant, tuple(self.opaque_val((u, variant, i), t) for i, t in enumerate(fs)))

    # ---- memory --------------------------------------------------------------------
    def load(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            if isinstance(cell, tuple) and cell[0] == "op":
                v = self.opaque_val((cell[1], "*"), cell[2])
                if v[0] == "Q" if isinstance(v, tuple) else False:
                    # the length a fat pointer to it reports
                    if cell[2].k in ("slice", "str"):
                        v = ("Q", v[1], named((cell[1], "len"), 0, (1 << 63) - 1), v[3])
            elif cell in self.kmem:
                v = self.kmem[cell]
            elif isinstance(cell, tuple) and cell[0] == "pos":
                v = named(("pos0", cell[1]), 0, (1 << 63) - 1)
            elif isinstance(cell, tuple) and cell[0] == "out":
                v = ("Q", U8, ZERO, EMPTY)
            else:
                raise Imprecise("read of an unset cell %r" % (cell,))
        return v

    def proj(self, st, v, p):
        if isinstance(v, tuple):
            k = v[0]
            if k == "A":
                if isinstance(p, int):
                    if p < len(v[3]):
                        return v[3][p]
                    raise Imprecise("field %r of %s" % (p, v[1]))
                if p[0] == "v":
                    if v[2] == p[1]:
                        return v
                    raise Imprecise("downcast mismatch")
            if k == "Q" and not isinstance(p, int) and p[0] == "i":
                return self.elem(st, v, p[1])
            if k == "I" and not isinstance(p, int) and p[0] == "w":
                return v[p[1]]
            if k == "O":
                if isinstance(p, tuple) and p[0] == "v":
                    return self.expand(v, p[1])
                if isinstance(p, int):
                    a = self.p.adts.get(v[2].path) if v[2].k == "adt" else None
                    if a is not None and a.full and a.kind == "struct":
                        return self.expand(v, 0)[3][p]
                    var = st.var.get(v[1])
                    if var is not None:
                        return self.expand(v, var)[3][p]
        raise Imprecise("projection %r of %s" % (p, str(v)[:60]))

    def read(self, st, cell, path):
        v = self.load(st, cell)
        for p in path:
            v = self.proj(st, v, p)
        return v

    def write(self, st, cell, path, val):
        if not path:
            st.mem[cell] = val
            return
        st.mem[cell] = self._upd(st, self.load(st, cell), path, val)

    def _upd(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if isinstance(v, tuple) and v[0] == "O":
            if isinstance(p, tuple) and p[0] == "v":
                v = self.expand(v, p[1])
            elif isinstance(p, int):
                var = st.var.get(v[1])
                v = self.expand(v, var if var is not None else 0)
        if isinstance(v, tuple) and v[0] == "A":
            if isinstance(p, tuple) and p[0] == "v":
                if v[2] != p[1]:
                    raise Imprecise("write through a mismatched variant")
                return self._upd(st, v, path[1:], val)
            fs = list(v[3])
            fs[p] = self._upd(st, fs[p], path[1:], val)
            return ("A", v[1], v[2], tuple(fs))
        if isinstance(v, tuple) and v[0] == "Q" and isinstance(p, tuple) and p[0] == "i":
            if len(path) > 1:
                val = self._upd(st, self.elem(st, v, p[1]), path[1:], val)
            return self.set_elem(st, v, p[1], val)
        if isinstance(v, tuple) and v[0] == "I" and isinstance(p, tuple) and p[0] == "w":
            return v[:p[1]] + (self._upd(st, v[p[1]], path[1:], val),) + v[p[1] + 1:]
        raise Imprecise("write projection %r of %s" % (p, str(v)[:60]))

    # ---- sequences -------------------------------------------------------------------
    def elem(self, st, q, idx):
        return self.celem(st, q[3], q[1], st.f.norm(idx))

    def celem(self, st, c, ty, idx):
        k = c[0]
        if k == "e":
            if not idx.t:
                if 0 <= idx.c < len(c[1]):
                    return c[1][idx.c]
                return self.havoc_val(ty, "oob")
            vs = c[1]
            if vs and all(x == vs[0] for x in vs):
                return vs[0]
            lo, hi = st.f.interval(idx)
            if lo is not None and hi is not None and lo == hi and 0 <= lo < len(vs):
                return vs[lo]
            return self.opaque_val(("el", c, idx), ty)
        if k == "rep":
            return c[1]
        if k == "sub":
            return self.celem(st, c[1], ty, st.f.norm(idx.add(c[2])))
        if k == "upd":
            d = idx.sub(c[2])
            if st.f.prove_eq0(d):
                return c[3]
            if st.f.prove_ne0(d):
                return self.celem(st, c[1], ty, idx)
            return self.opaque_val(("el", c, idx), ty)
        if k == "cat":
            off = ZERO
            for (pc, pl) in c[1]:
                rel = idx.sub(off)
                if st.f.prove_ge0(pl.sub(1).sub(rel)):
                    if st.f.prove_ge0(rel):
                        return self.celem(st, pc, ty, st.f.norm(rel))
                    break
                if not st.f.prove_ge0(rel.sub(pl)):
                    break
                off = off.add(pl)
            return self.opaque_val(("el", c, idx), ty)
        v = self.opaque_val(("el", c, idx), ty)
        if k == "u" and isinstance(v, Lin):
            for _, x in self.elemfacts.get(c[1], ()):
                st.f.assume_ge0(x.sub(v))
        return v

    def set_elem(self, st, q, idx, val):
        idx = st.f.norm(idx)
        c = q[3]
        if c[0] == "rep" and not q[2].t and q[2].c <= 64:
            c = ("e", tuple([c[1]] * q[2].c))
        if c[0] == "e" and not idx.t and 0 <= idx.c < len(c[1]):
            l = list(c[1])
            l[idx.c] = val
            return ("Q", q[1], q[2], ("e", tuple(l)))
        if c[0] == "cat":
            off = ZERO
            out = list(c[1])
            for n, (pc, pl) in enumerate(c[1]):
                rel = st.f.norm(idx.sub(off))
                if st.f.prove_ge0(pl.sub(1).sub(rel)) and st.f.prove_ge0(rel):
                    sub = self.set_elem(st, ("Q", q[1], pl, pc), rel, val)
                    out[n] = (sub[3], pl)
                    return ("Q", q[1], q[2], ("cat", tuple(out)))
                off = off.add(pl)
        if c[0] == "upd" and st.f.prove_eq0(c[2].sub(idx)):
            c = c[1]
        return ("Q", q[1], q[2], ("upd", c, idx, val))

    def subcontent(self, st, c, start, ln):
        """Content of the range [start, start+ln)."""
        start, ln = st.f.norm(start), st.f.norm(ln)
        if not ln.t and ln.c == 0:
            return EMPTY
        k = c[0]
        if k == "rep":
            return c
        if k == "e" and not start.t and not ln.t:
            return ("e", c[1][start.c:start.c + ln.c])
        if k == "sub":
            return self.subcontent(st, c[1], start.add(c[2]), ln)
        if k == "cat":
            # drop parts that lie completely outside
            off = ZERO
            out = []
            end = start.add(ln)
            f = st.f
            for (pc, pl) in c[1]:
                pend = off.add(pl)
                if f.prove_ge0(start.sub(pend)) or f.prove_ge0(off.sub(end)):
                    off = pend
                    continue
                if f.prove_ge0(off.sub(start)) and f.prove_ge0(end.sub(pend)):
                    out.append((pc, pl))
                elif f.prove_ge0(start.sub(off)) and f.prove_ge0(pend.sub(end)):
                    out.append((self.subcontent(st, pc, start.sub(off), ln), ln))
                elif f.prove_ge0(start.sub(off)) and f.prove_ge0(end.sub(pend)):
                    l2 = pend.sub(start)
                    out.append((self.subcontent(st, pc, start.sub(off), l2), f.norm(l2)))
                elif f.prove_ge0(off.sub(start)) and f.prove_ge0(pend.sub(end)):
                    l2 = end.sub(off)
                    out.append((self.subcontent(st, pc, ZERO, l2), f.norm(l2)))
                else:
                    return ("sub", c, start)
                off = pend
            return self.mkcat(st, out)
        if start == ZERO:
            return ("sub", c, ZERO) if k != "u" else ("sub", c, ZERO)
        return ("sub", c, start)

    def mkcat(self, st, parts):
        out = []
        for c, l in parts:
            l = st.f.norm(l)
            if not l.t and l.c == 0:
                continue
            if c[0] == "cat":
                items = c[1]
            else:
                items = ((c, l),)
            for pc, pl in items:
                if not pl.t and pl.c == 0:
                    continue
                if out:
                    lc, ll = out[-1]
                    if lc[0] == "e" and pc[0] == "e":
                        out[-1] = (("e", lc[1] + pc[1]), ll.add(pl))
                        continue
                    if lc[0] == "rep" and pc[0] == "rep" and lc[1] == pc[1]:
                        out[-1] = (lc, ll.add(pl))
                        continue
                    if pc[0] == "sub":
                        b = pc[1]
                        if lc[0] == "sub" and lc[1] == b and st.f.prove_eq0(lc[2].add(ll).sub(pc[2])):
                            out[-1] = (lc, ll.add(pl))
                            continue
                out.append((pc, pl))
        if not out:
            return EMPTY
        if len(out) == 1:
            return out[0][0]
        return ("cat", tuple(out))

    # ---- measures (sums over the elements of a sequence) ---------------------------------
    def measures_of(self, ty):
        for pred, ms in self.measures.items():
            if pred(ty):
                return ms
        return ()

    def qsum(self, st, ty, c, ln, m, start=ZERO):
        """Sum of measure m over content[start .. start+ln)."""
        name, fn = m
        f = st.f
        ln, start = f.norm(ln), f.norm(start)
        if not ln.t and ln.c == 0:
            return ZERO
        k = c[0]
        if k == "e" and not ln.t and not start.t:
            t = ZERO
            for v in c[1][start.c:start.c + ln.c]:
                x = fn(self, st, v)
                if x is None:
                    return None
                t = t.add(x)
            return t
        if k == "rep":
            x = fn(self, st, c[1])
            return None if x is None else mk_mul(f, x, ln)
        if k == "sub":
            return self.qsum(st, ty, c[1], ln, m, start.add(c[2]))
        if k == "cat":
            if start == ZERO:
                tot = ZERO
                acc = ZERO
                for pc, pl in c[1]:
                    acc = acc.add(pl)
                if f.prove_eq0(acc.sub(ln)):
                    for pc, pl in c[1]:
                        x = self.qsum(st, ty, pc, pl, m)
                        if x is None:
                            return None
                        tot = tot.add(x)
                    return tot
            sc = self.subcontent(st, c, start, ln)
            if sc[0] == "cat":
                if sc != c:
                    return self.qsum(st, ty, sc, ln, m)
            elif sc[0] != "sub" or sc[1] != c:
                return self.qsum(st, ty, sc, ln, m)
        if k == "upd":
            i = c[2].sub(start)
            if f.prove_ge0(i) and f.prove_ge0(ln.sub(1).sub(i)):
                base = self.qsum(st, ty, c[1], ln, m, start)
                old, new = fn(self, st, self.celem(st, c[1], ty, c[2])), fn(self, st, c[3])
                if base is not None and old is not None and new is not None:
                    return base.sub(old).add(new)
            elif f.prove_ge0(i.neg().sub(1)) or f.prove_ge0(i.sub(ln)):
                return self.qsum(st, ty, c[1], ln, m, start)
        hi = self.prefix(st, c, start.add(ln), m)
        return hi.sub(self.prefix(st, c, start, m))

    def prefix(self, st, c, k, m):
        k = st.f.norm(k)
        if not k.t and k.c == 0:
            return ZERO
        return S(sym(("uf", ("prefix", m[0]), c, k), None, None))

    def elem_axiom(self, st, ty, c, idx):
        """prefix(idx+1) = prefix(idx) + m(elem idx) for the measured sequence."""
        ms = self.measures_of(ty)
        if not ms:
            return
        while c[0] == "sub":
            idx = idx.add(c[2])
            c = c[1]
        if c[0] != "u":
            return
        e = self.celem(st, c, ty, st.f.norm(idx))
        for m in ms:
            x = m[1](self, st, e)
            if x is not None:
                st.f.assume_eq0(self.prefix(st, c, idx.add(1), m).sub(self.prefix(st, c, idx, m)).sub(x))

    # ---- conditions ----------------------------------------------------------------------
    def cnot(self, c):
        if c is True:
            return False
        if c is False:
            return True
        if c[0] == "cnot":
            return c[1]
        if c[0] == "ceq":
            return ("cne", c[1])
        if c[0] == "cne":
            return ("ceq", c[1])
        if c[0] == "cge":
            return ("cge", c[1].neg().sub(1))
        return ("cnot", c)

    def decide(self, st, c):
        """True / False / None (unknown)."""
        if c is True or c is False:
            return c
        k = c[0]
        f = st.f
        if k == "cge":
            if f.prove_ge0(c[1]):
                return True
            if f.prove_ge0(c[1].neg().sub(1)):
                return False
            return None
        if k == "ceq":
            if f.prove_eq0(c[1]):
                return True
            if f.prove_ne0(c[1]):
                return False
            return None
        if k == "cne":
            r = self.decide(st, ("ceq", c[1]))
            return None if r is None else (not r)
        if k == "cnot":
            r = self.decide(st, c[1])
            return None if r is None else (not r)
        if k in ("cand", "cor"):
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if k == "cand":
                if a is False or b is False:
                    return False
                return True if (a and b) else None
            if a or b:
                return True
            return False if (a is False and b is False) else None
        if k == "cbv":
            return st.var.get(c[1])
        if k == "cforall":
            return None
        raise Imprecise("condition " + str(c)[:80])

    def assume(self, st, c):
        """Restricts the state to c (in place); returns a list of states (disjunctions split)."""
        if c is True:
            return [st]
        if c is False:
            return []
        k = c[0]
        if k == "cge":
            if self.condlog is not None:
                self.condlog.append(c[1])
            st.f.assume_ge0(c[1])
            return [] if st.f.dead else [st]
        if k == "ceq":
            if self.condlog is not None:
                self.condlog.append(c[1])
                self.condlog.append(c[1].neg())
            st.f.assume_eq0(c[1])
            if self.eqs is not None and not st.f.dead:
                import eqs
                eqs.note(self, st, c[1])
            return [] if st.f.dead else [st]
        if k == "cne":
            st.f.assume_ne0(c[1])
            return [] if st.f.dead else [st]
        if k == "cand":
            out = []
            for s in self.assume(st, c[1]):
                out += self.assume(s, c[2])
            return out
        if k == "cor":
            s2 = st.copy()
            out = self.assume(st, c[1])
            for s in self.assume(s2, self.cnot(c[1])):
                out += self.assume(s, c[2])
            return out
        if k == "cnot":
            d = c[1]
            if d[0] == "cand":
                return self.assume(st, ("cor", self.cnot(d[1]), self.cnot(d[2])))
            if d[0] == "cor":
                return self.assume(st, ("cand", self.cnot(d[1]), self.cnot(d[2])))
            if d[0] == "cbv":
                v = st.var.get(d[1])
                if v is True:
                    return []
                st.var[d[1]] = False
                return [st]
            return self.assume(st, self.cnot(d))
        if k == "cbv":
            v = st.var.get(c[1])
            if v is False:
                return []
            st.var[c[1]] = True
            self.hook_bv(st, c[1])
            return [st]
        raise Imprecise("assume " + str(c)[:80])

    def hook_bv(self, st, u):
        if self.eqs is not None and isinstance(u, tuple) and u[0] == "seqeq":
            import eqs
            eqs.given(self, st, u[1], ZERO, u[3], ZERO, u[2])

    def split(self, st, c):
        """[(state, True/False)]"""
        d = self.decide(st, c)
        if d is not None:
            return [(st, d)]
        s2 = st.copy()
        return [(s, True) for s in self.assume(st, c)] + [(s, False) for s in self.assume(s2, self.cnot(c))]

    def variants(self, st, v):
        """[(state, ('A',...))] over the possible variants of an enum value."""
        if v[0] == "A":
            return [(st, v)]
        if v[0] == "O":
            k = st.var.get(v[1])
            if k is not None:
                return [(st, self.expand(v, k))]
            a = self.p.adts.get(v[2].path) if v[2].k == "adt" else None
            if a is None or not a.full or a.kind != "enum":
                raise Imprecise("variants of " + str(v[2]))
            out = []
            for i in range(len(a.variants)):
                s2 = st.copy() if i + 1 < len(a.variants) else st
                s2.var[v[1]] = i
                for h in self.hooks.get("variant", ()):
                    h(self, s2, v, i)
                out.append((s2, self.expand(v, i)))
            return out
        raise Imprecise("variants of " + str(v)[:60])

    # ---- operands, places ------------------------------------------------------------------
    def ty(self, fr, t):
        return self.p.subst(t, fr.env)

    def place(self, st, fr, pl):
        """Resolves a place to ('P', cell, path) or ('PS', cell, path, start, len)."""
        local, projs, _ty = pl
        cell, path = fr.cells[local], ()
        sl = None
        for e in projs:
            if e == "*":
                if sl is not None:
                    raise Imprecise("deref of a slice place")
                v = self.read(st, cell, path)
                if v[0] == "R":
                    cell, path = v[1], v[2]
                elif v[0] == "S":
                    sl = (v[1], v[2], v[3], v[4])
                elif v[0] == "O":
                    t = v[2]
                    if t.k in ("ref", "ptr"):
                        cell, path = ("op", v[1], t.t), ()
                    elif t.k == "adt" and t.path == "alloc::boxed::Box":
                        cell, path = ("op", v[1], t.args[0]), ()
                    else:
                        raise Imprecise("deref of " + str(t))
                elif v[0] == "str":
                    return ("PK", v)
                else:
                    raise Imprecise("deref of " + str(v)[:50])
            elif isinstance(e, int):
                path = path + (e,)
            elif e[0] == "v":
                path = path + (("v", e[1]),)
            elif e[0] == "i":
                idx = self.read(st, fr.cells[e[1]], ())
                if sl is not None:
                    cell, path = sl[0], sl[1] + (("i", st.f.norm(sl[2].add(idx))),)
                    sl = None
                else:
                    path = path + (("i", st.f.norm(idx)),)
                self.indexed(st, cell, path)
            elif e[0] == "ci":
                if sl is not None:
                    i = sl[2].add(e[1]) if not e[3] else sl[2].add(sl[3]).sub(e[1])
                    cell, path = sl[0], sl[1] + (("i", st.f.norm(i)),)
                    sl = None
                else:
                    q = self.read(st, cell, path)
                    i = L(e[1]) if not e[3] else q[2].sub(e[1])
                    path = path + (("i", st.f.norm(i)),)
                self.indexed(st, cell, path)
            elif e[0] == "sub":
                if sl is None:
                    q = self.read(st, cell, path)
                    sl = (cell, path, ZERO, q[2])
                start = sl[2].add(e[1])
                ln = sl[3].sub(e[1]).sub(e[2]) if e[3] else L(e[2] - e[1])
                sl = (sl[0], sl[1], start, ln)
            else:
                raise Imprecise("projection " + str(e))
        if sl is not None:
            return ("PS",) + sl
        # paths through ('v',k) are only needed while expanding
        return ("P", cell, path)

    def indexed(self, st, cell, path):
        """An element is looked at by index: what it adds to the measured sums."""
        if self.measures:
            q = self.read(st, cell, path[:-1])
            if isinstance(q, tuple) and q[0] == "Q" and self.measures_of(q[1]):
                self.elem_axiom(st, q[1], q[3], path[-1][1])

    def rd(self, st, fr, pl):
        p = self.place(st, fr, pl)
        if p[0] == "P":
            return self.read(st, p[1], p[2])
        if p[0] == "PK":
            return p[1]
        q = self.read(st, p[1], p[2])
        return ("Q", q[1], p[4], self.subcontent(st, q[3], p[3], p[4]))

    def operand(self, st, fr, op):
        k = op[0]
        if k == "copy" or k == "move":
            v = self.rd(st, fr, op[1])
            if isinstance(v, Lin):
                return st.f.norm(v)
            return v
        if k == "const":
            return self.const(st, fr, op[1])
        raise Imprecise("operand " + str(op)[:60])

    def const(self, st, fr, c):
        ty = self.ty(fr, c["ty"])
        if "fn" in c:
            return ("F", c["fn"], tuple(self.p.subst(a, fr.env) for a in c["args"]))
        if "int" in c:
            if ty.k == "bool":
                return bool(c["int"])
            return L(c["int"])
        if "promoted" in c:
            return self.constfn(st, c["promoted"], fr.env)
        if "uneval" in c:
            return self.constfn(st, c["uneval"], fr.env)
        if "str" in c:
            return ("str", c["str"])
        if c.get("zst"):
            if ty.k == "closure":
                self.closure_env.setdefault(ty.path, fr.env)
                return ("A", ty, 0, ())
            if ty.k == "tuple":
                return UNITV
            if ty.k == "adt":
                return ("A", ty, 0, ())
            return ("O", ("zst", ty.id), ty)
        if "opaque" in c:
            return ("O", ("const", c["opaque"], ty.id), ty)
        return ("O", ("const", repr(sorted(k for k in c)), ty.id), ty)

    def constfn(self, st, path, env):
        key = (path, tuple(sorted((k, v.id) for k, v in env.items() if isinstance(v, Ty))) if "promoted" in path else ())
        if key in self.kconst:
            return self.kconst[key]
        fn = self.p.fns.get(path)
        if fn is None:
            raise Imprecise("constant " + path)
        s = State()
        r0 = self.rec
        self.rec = 0
        lg, self.condlog = self.condlog, None
        try:
            outs = self.call_fn(s, fn, [], env, keep=True)
        finally:
            self.rec = r0
            self.condlog = lg
        if len(outs) != 1:
            raise Imprecise("constant with several values: " + path)
        s2, v = outs[0]
        for c, x in s2.mem.items():
            self.kmem[c] = x
        self.kconst[key] = v
        return v

    # ---- rvalues ------------------------------------------------------------------------
    def rvalue(self, st, fr, rv, dty):
        """[(state, value)]"""
        k = rv[0]
        if k == "use":
            return [(st, self.operand(st, fr, rv[1]))]
        if k == "ref" or k == "rawptr":
            p = self.place(st, fr, rv[1])
            if p[0] == "P":
                t = self.ty(fr, rv[1][2])
                if t.k in ("slice", "str"):
                    q = self.read(st, p[1], p[2])
                    return [(st, ("S", p[1], p[2], ZERO, q[2]))]
                return [(st, ("R", p[1], p[2]))]
            if p[0] == "PK":
                return [(st, p[1])]
            return [(st, ("S", p[1], p[2], p[3], p[4]))]
        if k == "bin":
            return self.binop(st, fr, rv)
        if k == "un":
            return self.unop(st, fr, rv)
        if k == "cast":
            return self.cast(st, fr, rv)
        if k == "discr":
            p = self.place(st, fr, rv[1])
            v = self.read(st, p[1], p[2]) if p[0] == "P" else None
            if v is None:
                raise Imprecise("discriminant of a slice")
            t = self.ty(fr, rv[1][2])
            out = []
            for s, a in self.variants(st, v):
                ad = self.p.adts.get(a[1].path) if a[1].k == "adt" else None
                d = ad.variants[a[2]][1] if ad is not None and ad.kind == "enum" else 0
                out.append((s, L(d if d is not None else a[2])))
            return out
        if k == "agg":
            what, info, ops = rv[1], rv[2], rv[3]
            vs = tuple(self.operand(st, fr, o) for o in ops)
            if what == "array":
                return [(st, ("Q", self.ty(fr, info), L(len(vs)), ("e", vs)))]
            if what == "tuple":
                return [(st, ("A", dty if dty.k == "tuple" else mkty("tuple", args=tuple(OTHER for _ in vs)), 0, vs))]
            if what == "adt":
                path, variant, args, uf = info
                t = mkty("adt", path=path, args=tuple(self.p.subst(a, fr.env) for a in args))
                if uf is not None:
                    raise Imprecise("union")
                return [(st, ("A", t, variant, vs))]
            if what == "closure":
                t = self.ty(fr, info)
                self.closure_env[t.path] = fr.env
                return [(st, ("A", t, 0, vs))]
            raise Imprecise("aggregate " + str(info))
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if isinstance(n, str):
                n = fr.env.get(n, n)
            if not isinstance(n, int):
                raise Imprecise("repeat length")
            et = dty.t if dty.k == "array" else OTHER
            if n <= 64:
                return [(st, ("Q", et, L(n), ("e", (v,) * n)))]
            return [(st, ("Q", et, L(n), ("rep", v)))]
        raise Imprecise("rvalue " + str(rv)[:80])

    def tolin(self, st, v):
        """[(state, Lin)] for an integer or boolean value."""
        if isinstance(v, Lin):
            return [(st, st.f.norm(v))]
        if v is True or v is False:
            return [(st, L(int(v)))]
        if isinstance(v, tuple) and v[0] in ("cge", "ceq", "cne", "cnot", "cand", "cor", "cbv"):
            return [(s, L(int(b))) for s, b in self.split(st, v)]
        if isinstance(v, tuple) and v[0] == "O":
            return None
        raise Imprecise("number expected: " + str(v)[:60])

    def isbool(self, v):
        return v is True or v is False or (isinstance(v, tuple) and v[0] in ("cge", "ceq", "cne", "cnot", "cand", "cor", "cbv"))

    def compare(self, st, op, a, b):
        """Condition a op b over integers."""
        if op == "Eq":
            return ("ceq", a.sub(b))
        if op == "Ne":
            return ("cne", a.sub(b))
        if op == "Lt":
            return ("cge", b.sub(a).sub(1))
        if op == "Le":
            return ("cge", b.sub(a))
        if op == "Gt":
            return ("cge", a.sub(b).sub(1))
        return ("cge", a.sub(b))

    def simp(self, st, c):
        if c is True or c is False:
            return c
        if c[0] in ("cge", "ceq", "cne"):
            l = st.f.norm(c[1])
            if not l.t:
                return {"cge": l.c >= 0, "ceq": l.c == 0, "cne": l.c != 0}[c[0]]
            return (c[0], l)
        return c

    def in_range(self, st, l, ty):
        lo, hi, _, _ = ty.rng()
        return ("cand", ("cge", l.sub(lo)), ("cge", L(hi).sub(l)))

    def binop(self, st, fr, rv):
        op = rv[1]
        a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
        t = self.ty(fr, rv[4])
        if op == "Offset":
            raise Imprecise("pointer offset")
        if self.isbool(a) and self.isbool(b):
            if op == "Eq" or op == "Ne":
                out = []
                for s, x in self.split(st, a):
                    out.append((s, b if x == (op == "Eq") else self.cnot(b)))
                return out
            if op == "BitAnd":
                return [(st, ("cand", a, b) if a is not True and a is not False else (b if a else False))]
            if op == "BitOr":
                return [(st, ("cor", a, b) if a is not True and a is not False else (True if a else b))]
            if op == "BitXor":
                return [(s, self.cnot(b) if x else b) for s, x in self.split(st, a)]
            out = []
            for s, x in self.split(st, a):
                for s2, y in self.split(s, b):
                    out.append((s2, self.simp(s2, self.compare(s2, op, L(int(x)), L(int(y))))))
            return out
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            if isinstance(a, tuple) and isinstance(b, tuple) and op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return [(st, ("cbv", ("?cmp", LN.uid())))]
            if t.k == "float":
                return [(st, ("O", ("?float", LN.uid()), t))]
            raise Imprecise("binary operation %s on %s" % (op, t))
        return [(st, self.arith(st, op, a, b, t))]

    def arith(self, st, op, a, b, t):
        f = st.f
        a, b = f.norm(a), f.norm(b)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.simp(st, self.compare(st, op, a, b))
        lo, hi, w, sg = t.rng()
        if op.endswith("WithOverflow"):
            o = op[:3]
            r = a.add(b) if o == "Add" else a.sub(b) if o == "Sub" else mk_mul(f, a, b)
            r = f.norm(r)
            ok = self.in_range(st, r, t)
            return ("A", mkty("tuple", args=(t, BOOL)), 0, (r, ("cnot", ok)))
        if op in ("Add", "AddUnchecked"):
            return wrap(f, w, sg, a.add(b))
        if op in ("Sub", "SubUnchecked"):
            return wrap(f, w, sg, a.sub(b))
        if op in ("Mul", "MulUnchecked"):
            return wrap(f, w, sg, mk_mul(f, a, b))
        if op == "Div" or op == "Rem":
            if f.prove_ge0(a) and f.prove_ge0(b.sub(1)):
                return mk_div(f, a, b) if op == "Div" else mk_rem(f, a, b)
            return fresh("?" + op, lo, hi)
        if op in ("BitAnd", "BitOr", "BitXor"):
            x, y = to_bits(f, a, w), to_bits(f, b, w)
            g = {"BitAnd": band, "BitOr": bor, "BitXor": bxor}[op]
            r = [g(p, q) for p, q in zip(x, y)]
            r = f.norm(from_bits(f, r, w, sg))
            self.bitop_facts(st, op, a, b, r)
            return r
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            if b.t:
                if op.startswith("Shr") and not sg:
                    r = S(sym(("uf", "shr", a, b), 0, hi))
                    f.assume_ge0(a.sub(r))
                    return r
                return fresh("?shift", lo, hi)
            n = b.c % w
            x = to_bits(f, a, w)
            if op.startswith("Shl"):
                r = (0,) * n + tuple(x[:w - n])
            else:
                r = tuple(x[n:]) + ((x[-1] if sg else 0),) * n
            return f.norm(from_bits(f, r, w, sg))
        if op == "Cmp":
            raise Imprecise("three way compare")
        raise Imprecise("operation " + op)

    def bitop_facts(self, st, op, a, b, r):
        f = st.f
        if op == "BitAnd" and r.t:
            alo, _ = f.interval(a)
            blo, _ = f.interval(b)
            if alo is not None and alo >= 0 and a.t and len(a.t) <= 3:
                if not f.prove_ge0(a.sub(r)):
                    f.assume_ge0(a.sub(r))
            if blo is not None and blo >= 0 and b.t and len(b.t) <= 3:
                if not f.prove_ge0(b.sub(r)):
                    f.assume_ge0(b.sub(r))

    def unop(self, st, fr, rv):
        op = rv[1]
        v = self.operand(st, fr, rv[2])
        if op == "Not":
            if self.isbool(v):
                return [(st, self.cnot(v))]
            t = self.ty(fr, rv[3])
            lo, hi, w, sg = t.rng()
            x = to_bits(st.f, v, w)
            return [(st, from_bits(st.f, [bxor(q, 1) for q in x], w, sg))]
        if op == "Neg":
            t = self.ty(fr, rv[3])
            if t.k == "float":
                return [(st, ("O", ("?float", LN.uid()), t))]
            lo, hi, w, sg = t.rng()
            return [(st, wrap(st.f, w, sg, v.neg()))]
        if op == "PtrMetadata":
            if v[0] == "S":
                return [(st, st.f.norm(v[4]))]
            if v[0] == "str":
                return [(st, L(len(v[1].encode())))]
            if v[0] == "R":
                q = self.read(st, v[1], v[2])
                if q[0] == "Q":
                    return [(st, q[2])]
        raise Imprecise("unary " + op)

    def cast(self, st, fr, rv):
        _, op, kind, ft, tt = rv
        v = self.operand(st, fr, op)
        ft, tt = self.ty(fr, ft), self.ty(fr, tt)
        if kind.startswith("IntToInt"):
            lo, hi, w, sg = tt.rng()
            out = []
            ls = self.tolin(st, v)
            if ls is None:
                a = self.variants(st, v)
                ls = []
                for s, x in a:
                    ad = self.p.adts[x[1].path]
                    ls.append((s, L(ad.variants[x[2]][1])))
            for s, l in ls:
                r = wrap(s.f, w, sg, l)
                if r is not l and r != l:
                    self.hook("truncate", s, l, r, ft, tt)
                else:
                    self.hook("castok", s, l, ft, tt)
                out.append((s, r))
            return out
        if "Unsize" in kind:
            if tt.k in ("ref", "ptr") and tt.t.k == "slice":
                if v[0] == "R":
                    q = self.read(st, v[1], v[2])
                    return [(st, ("S", v[1], v[2], ZERO, q[2]))]
                return [(st, v)]
            return [(st, v)]
        if kind.startswith("BoxDerefTransmute") and v[0] == "R":
            return [(st, v)]
        if kind.startswith("Transmute") and v[0] == "R" and tt.k == "int":
            return [(st, named(("addr", v[1]), 1, None))]
        if kind.startswith("PointerCoercion") or kind.startswith("PtrToPtr") or kind.startswith("Transmute"):
            return [(st, v)]
        return [(st, self.havoc_val(tt, "cast"))]

    # ---- execution ---------------------------------------------------------------------
    def call_fn(self, st, fn, args, env, keep=False):
        """Interprets a workspace function: [(state, return value)]."""
        if len(self.callstack) > 40:
            raise Imprecise("call depth")
        self.fn_seen.add(fn.path)
        fr = Frame()
        fr.fn, fr.env = fn, env
        fr.cells = [self.newcell() for _ in fn.locals]
        fr.depth = len(self.callstack)
        if keep:
            fr.cells = [("k", fn.path, i, LN.uid()) for i in range(len(fn.locals))]
        if fn.spread is not None and len(args) != fn.argc:
            raise Imprecise("spread arguments")
        if len(args) != fn.argc:
            raise Imprecise("argument count of " + fn.path)
        for i, a in enumerate(args):
            st.mem[fr.cells[i + 1]] = a
        for i, t in enumerate(fn.locals):
            if t.k in ("int", "char", "tuple"):
                self.celltype[fr.cells[i]] = self.p.subst(t, env)
        self.callstack.append((fn, fr))
        try:
            outs = self.run(fr, 0, st, None)
        finally:
            self.callstack.pop()
        res = []
        for b, s in outs:
            assert b == "ret"
            v = s.mem.get(fr.cells[0])
            if v is None:
                v = UNITV
            if not keep:
                for c in fr.cells:
                    s.mem.pop(c, None)
            res.append((s, v))
        if len(res) > 3 and not self.keep_errors:
            res = self.merge(res)
        return res

    def is_err(self, v):
        if isinstance(v, tuple) and v[0] == "A" and v[1].k == "adt":
            if v[1].path == RESULT and v[2] == 1:
                return True
            if v[1].path == OPTION and v[2] == 1 and v[3]:
                return self.is_err(v[3][0])
        return False

    def merge(self, res):
        """Joins error outcomes with equal memory; drops exact duplicates."""
        out = []
        groups = {}
        for s, v in res:
            if self.is_err(v):
                key = (v, frozenset((c, x) for c, x in s.mem.items()), frozenset(s.tag.items()))
                g = groups.get(key)
                if g is None:
                    groups[key] = s
                    out.append((s, v))
                else:
                    self.join_facts(g, s)
            else:
                out.append((s, v))
        return out

    def join_facts(self, a, b):
        fb = set(b.f.cons)
        a.f.cons = [c for c in a.f.cons if c in fb]
        nb = {}
        for s, (lo, hi) in a.f.bnd.items():
            if s in b.f.bnd:
                l2, h2 = b.f.bnd[s]
                lo = None if lo is None or l2 is None else min(lo, l2)
                hi = None if hi is None or h2 is None else max(hi, h2)
                if lo is not None or hi is not None:
                    nb[s] = (lo, hi)
        a.f.bnd = nb
        a.f.sub = {s: l for s, l in a.f.sub.items() if b.f.sub.get(s) == l}
        a.f.bits = {s: l for s, l in a.f.bits.items() if b.f.bits.get(s) == l}
        nb = set(b.f.ne)
        a.f.ne = [x for x in a.f.ne if x in nb]
        a.var = {u: x for u, x in a.var.items() if b.var.get(u) == x}
        a.f.touch()

    def run(self, fr, block, st, loop):
        """Runs from `block`; returns [(block or 'ret', state)].
        With `loop`=(head, body): stops when the head is reached again or the body is left."""
        out = []
        loops = self.p.loops(fr.fn)
        work = [(block, st, True)]
        n = 0
        while work:
            b, s, first = work.pop()
            if loop is not None and not first and (b == loop[0] or b not in loop[1]):
                out.append((b, s))
                continue
            n += 1
            if n > self.max_states:
                raise Budget("too many partitions in " + fr.fn.path)
            if b in loops and not (loop is not None and b == loop[0]):
                for b2, s2 in self.do_loop(fr, b, loops[b], s):
                    if b2 == "ret":
                        out.append((b2, s2))
                    else:
                        work.append((b2, s2, False))
                continue
            for b2, s2 in self.exec_block(fr, b, s):
                if b2 == "ret":
                    out.append((b2, s2))
                else:
                    work.append((b2, s2, False))
        return out

    def exec_block(self, fr, b, st):
        stmts, term, _cl = fr.fn.blocks[b]
        states = [st]
        for s in stmts:
            self.tick()
            if s[0] == "assign":
                nxt = []
                dty = self.ty(fr, s[1][2])
                for x in states:
                    try:
                        rs = self.rvalue(x, fr, s[2], dty)
                    except Imprecise as e:
                        self.imprecise(x, fr, str(e), s[3])
                        rs = [(x, self.havoc_val(dty, "rv"))]
                    for y, v in rs:
                        self.assign(y, fr, s[1], v)
                        nxt.append(y)
                states = nxt
            elif s[0] == "setd":
                for x in states:
                    raise Imprecise("set discriminant")
            else:
                pass
        out = []
        for x in states:
            out += self.exec_term(fr, term, x)
        return out

    def imprecise(self, st, fr, what, sp):
        self.note_unmodelled("%s: %s" % (fr.fn.path, what))

    def assign(self, st, fr, pl, v):
        try:
            p = self.place(st, fr, pl)
            if p[0] == "P":
                self.write(st, p[1], p[2], v)
                return
        except Imprecise as e:
            self.imprecise(st, fr, "assignment: " + str(e), "")
        # a write we cannot place: forget the whole base
        self.forget_place(st, fr, pl)

    def forget_place(self, st, fr, pl):
        cell = fr.cells[pl[0]]
        projs = pl[1]
        if "*" not in projs:
            st.mem[cell] = self.havoc_val(self.ty(fr, fr.fn.locals[pl[0]]), "w")
            return
        v = st.mem.get(cell)
        self.havoc_reach(st, v, 0)

    def havoc_reach(self, st, v, depth=0):
        """Forgets everything reachable through references in v."""
        if not isinstance(v, tuple) or depth > 6:
            return
        if v[0] in ("R", "S"):
            try:
                old = self.read(st, v[1], v[2])
            except Imprecise:
                old = None
            t = self.typeof(old)
            if v[0] == "S" and old is not None and old[0] == "Q":
                self.write(st, v[1], v[2], ("Q", old[1], old[2], ("u", (self.hp + "h", LN.uid()))))
                return
            if old is not None and t is not None:
                self.havoc_reach(st, old, depth + 1)
                try:
                    self.write(st, v[1], v[2], self.havoc_val(t, "h"))
                except Imprecise:
                    st.mem[v[1]] = self.havoc_val(t, "h")
        elif v[0] == "A":
            for x in v[3]:
                self.havoc_reach(st, x, depth + 1)
        elif v[0] == "I":
            for x in v[2:]:
                self.havoc_reach(st, x, depth + 1)

    def typeof(self, v):
        if isinstance(v, Lin):
            return I64 if False else U64
        if not isinstance(v, tuple):
            return BOOL if isinstance(v, bool) else None
        if v[0] == "A":
            return v[1]
        if v[0] == "O":
            return v[2]
        if v[0] == "Q":
            return mkty("adt", path=VEC, args=(v[1], mkty("adt", path="alloc::alloc::Global")))
        if v[0] in ("cge", "ceq", "cne", "cnot", "cand", "cor", "cbv"):
            return BOOL
        return None

    def exec_term(self, fr, t, st):
        k = t["t"]
        self.tick()
        if k == "goto":
            return [(t["to"], st)]
        if k == "drop":
            return [(t["to"], st)]
        if k == "return":
            return [("ret", st)]
        if k == "switch":
            v = self.operand(st, fr, t["on"])
            return self.switch(st, v, t, fr)
        if k == "assert":
            return self.do_assert(fr, t, st)
        if k == "call":
            return self.do_call(fr, t, st)
        if k == "unreachable":
            return []
        if k == "resume":
            return []
        raise Imprecise("terminator " + k)

    def switch(self, st, v, t, fr):
        out = []
        if self.isbool(v):
            m = {bool(c[0]): c[1] for c in t["cases"]}
            for s, b in self.split(st, v):
                out.append((m.get(b, t["other"]), s))
            return out
        if not isinstance(v, Lin):
            raise Imprecise("switch on " + str(v)[:60])
        l = st.f.norm(v)
        if not l.t:
            for c, b in t["cases"]:
                if c == l.c:
                    return [(b, st)]
            return [(t["other"], st)]
        cur = st
        for c, b in t["cases"]:
            s2 = cur.copy()
            for s in self.assume(s2, ("ceq", l.sub(c))):
                out.append((b, s))
            r = self.assume(cur, ("cne", l.sub(c)))
            if not r:
                return out
            cur = r[0]
        if fr.fn.blocks[t["other"]][1]["t"] != "unreachable" or fr.fn.blocks[t["other"]][0]:
            out.append((t["other"], cur))
        return out

    def do_assert(self, fr, t, st):
        if self.light:
            return [(t["to"], st)]
        c = self.operand(st, fr, t["cond"])
        if not t["exp"]:
            c = self.cnot(c)
        d = self.decide(st, c)
        msg = t["msg"]
        site = t["sp"]
        key = msg
        if msg.startswith("misaligned pointer") or msg.startswith("null pointer"):
            return [(t["to"], st)]          # checks the compiler adds to raw accesses of its own making
        if self.rec > 0:
            ops = [self.operand(st, fr, o) for o in t["mops"]]
            self.check(st, "panic", key, c, d, "%s %s" % (msg, " , ".join(self.show(st, o) for o in ops)), site)
        if d is False:
            return []
        out = []
        if self.condlog is not None:
            pass
        for s in ([st] if d else self.assume(st, c)):
            out.append((t["to"], s))
        return out

    def show(self, st, v):
        if isinstance(v, Lin):
            lo, hi = st.f.interval(v)
            return "%r in [%s,%s]" % (v, lo, hi)
        return str(v)[:80]

    def check(self, st, kind, key, cond, d, detail, site):
        """Obligation: cond holds in st (d = decision)."""
        if d is True:
            self.oblige(st, kind, key, True, "", site)
        elif self.tainted(st, cond) or self.models.state_tainted(self, st):
            self.oblige(st, kind, key, None, detail, site)
        else:
            self.oblige(st, kind, key, False, detail, site)

    def tainted(self, st, c):
        """Does the condition depend on something the analysis could not follow?"""
        if c is True or c is False:
            return False
        if isinstance(c, Lin):
            return self.lin_tainted(st, c)
        if c[0] in ("cge", "ceq", "cne"):
            return self.lin_tainted(st, c[1])
        if c[0] in ("cnot",):
            return self.tainted(st, c[1])
        if c[0] in ("cand", "cor"):
            return self.tainted(st, c[1]) or self.tainted(st, c[2])
        if c[0] == "cbv":
            return uid_tainted(c[1])
        return True

    def lin_tainted(self, st, l):
        l = st.f.norm(l)
        return any(sym_tainted(s) for s in l.syms())

    # ---- calls -------------------------------------------------------------------------
    def do_call(self, fr, t, st):
        f = t["f"]
        self.calls_seen += 1
        args = []
        site = t["sp"]
        dty = self.ty(fr, t["dest"][2])
        try:
            for o in t["args"]:
                args.append(self.operand(st, fr, o))
        except Imprecise as e:
            self.imprecise(st, fr, "call argument: " + str(e), site)
            outs = self.unknown_call(st, "?", args, dty)
            return self.finish_call(fr, t, outs)
        outs = self.call(st, fr, f, args, dty, site, t)
        return self.finish_call(fr, t, outs)

    def finish_call(self, fr, t, outs):
        if t["to"] is None:
            return []
        res = []
        for s, v in outs:
            if v is None:
                continue
            self.assign(s, fr, t["dest"], v)
            res.append((t["to"], s))
        return res

    def call(self, st, fr, f, args, dty, site, t=None):
        if "ptr" in f:
            v = self.operand(st, fr, f["ptr"])
            return self.call_value(st, v, args, dty, site)
        path = f.get("res") or f["path"]
        targs = f.get("res_args") or f["args"]
        targs = [self.p.subst(a, fr.env) for a in targs]
        if "trait" in f and "res" not in f:
            selfty = self.p.subst(f["self"], fr.env)
            r = self.p.resolve_impl(f["path"], selfty)
            if r is not None:
                path, env = r
                fn = self.p.fns.get(path)
                if fn is not None:
                    env = dict(env)
                    own = [g for g in fn.generics if g not in env]
                    extra = targs[1:]
                    for g, a in zip(own, extra[-len(own):] if own else []):
                        env[g] = a
                    return self.call_path(st, fn, path, args, env, dty, site, targs)
        fn = self.p.fns.get(path)
        env = None
        if fn is not None:
            env = dict(zip(fn.generics, targs))
        return self.call_path(st, fn, path, args, env, dty, site, targs, f, fr, t)

    def call_path(self, st, fn, path, args, env, dty, site, targs, f=None, fr=None, t=None):
        c = self.contracts.get(path)
        try:
            if self.pre_call is not None:
                r = self.pre_call(self, st, fn, path, args, env or {}, dty, site, f)
                if r is not None:
                    return r
            if c is not None:
                r = c(self, st, path, args, env or {}, dty, site)
                if r is not None:
                    return r
            if fn is not None and path not in self.opaque:
                if any(x[0].path == path for x in self.callstack):
                    self.note_unmodelled("recursion: " + path)
                    return self.unknown_call(st, path, args, dty)
                return self.call_fn(st, fn, args, env)
        except Imprecise as e:
            self.note_unmodelled("%s -> %s: %s" % (self.where(), path, e))
            return self.unknown_call(st, path, args, dty)
        if fn is not None:
            return self.unknown_call(st, path, args, dty)
        try:
            r = self.models.call(self, st, path, args, targs, dty, site, f)
        except Imprecise as e:
            self.note_unmodelled("%s -> %s: %s" % (self.where(), path, e))
            r = None
        if r is None:
            self.note_unmodelled("%s -> %s" % (self.where(), path))
            return self.unknown_call(st, path, args, dty)
        return r

    def call_value(self, st, fv, args, dty, site):
        """Calls a closure or fn item value: [(state, value)]."""
        if fv[0] == "R":
            inner = self.read(st, fv[1], fv[2])
            if inner[0] == "A" and inner[1].k == "closure":
                return self.call_closure(st, inner, fv, args, dty, site)
            return self.call_value(st, inner, args, dty, site)
        if fv[0] == "A" and fv[1].k == "closure":
            c = self.newcell()
            st.mem[c] = fv
            r = self.call_closure(st, fv, ("R", c, ()), args, dty, site)
            return r
        if fv[0] == "F":
            path, targs = fv[1], list(fv[2])
            fn = self.p.fns.get(path)
            if fn is None:
                r = self.ctor(path, targs, args, dty)
                if r is not None:
                    return [(st, r)]
            env = dict(zip(fn.generics, targs)) if fn is not None else None
            return self.call_path(st, fn, path, args, env, dty, site, targs)
        self.note_unmodelled("%s -> call of %s" % (self.where(), str(fv)[:40]))
        return self.unknown_call(st, "?fn", args, dty)

    def ctor(self, path, targs, args, dty):
        """A tuple struct / variant constructor used as a function."""
        base, _, last = path.rpartition("::")
        a = self.p.adts.get(base)
        if a is not None and a.full and dty is not None and dty.k == "adt" and dty.path == base:
            for i, v in enumerate(a.variants):
                if v[0] == last and len(v[2]) == len(args):
                    return ("A", dty, i, tuple(args))
        a = self.p.adts.get(path)
        if a is not None and a.full and dty is not None and dty.k == "adt" and dty.path == path and len(a.variants[0][2]) == len(args):
            return ("A", dty, 0, tuple(args))
        return None

    def call_closure(self, st, cl, ref, args, dty, site):
        path = cl[1].path
        fn = self.p.fns.get(path)
        if fn is None:
            return self.unknown_call(st, path, [cl] + list(args), dty)
        env = self.closure_env.get(path, {})
        first = ref if fn.locals[1].k == "ref" else cl
        if fn.argc != 1 + len(args):
            raise Imprecise("closure arguments of " + path)
        return self.call_fn(st, fn, [first] + list(args), env)

    def unknown_call(self, st, path, args, dty):
        if self.on_unknown is not None:
            self.on_unknown(self, st, path, args)
        for a in args:
            self.havoc_reach(st, a)
        if dty.k == "never":
            return []
        return [(st, self.havoc_val(dty, "call"))]

    # ---- loops -----------------------------------------------------------------------------
    def do_loop(self, fr, head, body, st):
        key = ("loop", fr.fn.path, head)
        live = self.p.live_at(fr.fn, head)
        for i, c in enumerate(fr.cells):
            if i not in live and i != 0:
                st.mem.pop(c, None)

        def step(s):
            conts, exits = [], []
            for b, s2 in self.run(fr, head, s, (head, body)):
                if b == head:
                    conts.append(s2)
                else:
                    exits.append((b, s2))
            return conts, exits
        k = self.bound_outer.get(fr.fn.path)
        if k and not any(x is fr for x in self.in_bounded):
            import loops
            self.in_bounded.append(fr)
            try:
                return loops.bounded(self, st, step, k, 1 << 30)
            finally:
                self.in_bounded.pop()
        hasshift = any(x[0] == "assign" and x[2][0] == "bin" and x[2][1].startswith("Sh") and not _const_operand0(x[2][3])
                       for b in body for x in fr.fn.blocks[b][0])
        return self.fix(key, st, step, unroll=hasshift or any(_short(st.mem.get(c)) for i, c in enumerate(fr.cells) if i in live))

    def fix(self, key, st, step, unroll=False):
        import loops
        return loops.fix(self, key, st, step, unroll)


def _short(v):
    """A range with constant ends and few elements: the loop over it is followed element by element."""
    if not isinstance(v, tuple) or v[0] != "A" or RANGE_ADTS.get(v[1].path if v[1].k == "adt" else None) != "Range":
        return False
    a, b = v[3]
    return isinstance(a, Lin) and isinstance(b, Lin) and a.is_const() and b.is_const() and 0 < b.c - a.c <= 8


def _const_operand0(o):
    return o[0] == "const" and o[1].get("int") == 0


_taintmemo = {}


def uid_tainted(u):
    if isinstance(u, str):
        return u.startswith("?")
    if isinstance(u, tuple):
        return any(uid_tainted(x) for x in u)
    if isinstance(u, Lin):
        return any(sym_tainted(s) for s in u.syms())
    return False


def sym_tainted(s):
    r = _taintmemo.get(s)
    if r is None:
        _taintmemo[s] = False
        d = SYM[s].d
        if d[0] == "bits":
            r = any(sym_tainted(x) for b in d[3] if b not in (0, 1) for x, _ in b[1])
        else:
            r = any(uid_tainted(x) for x in d[1:])
        _taintmemo[s] = r
    return r

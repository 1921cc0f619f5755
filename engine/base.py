"""Shared pieces of the checks: looking up the analysed program's functions, running entries, recording outcomes.

Outcome of an obligation: True (proved), False (the abstract value contradicts / does not imply it although everything
on the way was followed), None (something on the way could not be followed: recorded as undecided, never an alarm).
"""
import os, pickle, re, select, sys, time, traceback
import dump as DUMP
import prog as PG
import lin as LN
import eqs
import interp as IT
import models
from prog import mkty, U8, UNIT
from lin import L, S, ZERO, named, fresh, Lin
from interp import Interp, State, Imprecise, Budget, VEC, EMPTY, UNITV, RESULT, OPTION

U64 = mkty("int", name="u64")
U32 = mkty("int", name="u32")
U16 = mkty("int", name="u16")
USIZE = mkty("int", name="usize")
I64 = mkty("int", name="i64")
VECU8 = models.VECU8
MAXI = models.MAXLEN


JOBS = 8
FIELDS = ("_viol", "_und", "_proved", "notes", "fns", "_counts", "entries", "unmodelled", "loops")


class Ctx:
    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self._viol = {}
        self._und = {}
        self._proved = {}
        self.notes = []
        self.fns = set()
        self._counts = {}
        self._jobs = {}
        self._child = False
        self._confirm = 0
        self._want = None
        self._interps = []
        self.entries = []
        self.unmodelled = {}
        self.loops = {}
        self._p = None

    @property
    def p(self):
        if self._p is None:
            self._p = PG.Program(DUMP.dump())
        return self._p

    def left(self):
        return float(os.environ.get("SMDIFF_TIME", "480")) - (time.time() - self.t0)

    # ---- outcomes ---------------------------------------------------------------
    def ok(self, key, n=1):
        self._proved[key] = self._proved.get(key, 0) + n

    def bad(self, key, text):
        self._viol.setdefault(key, text)
        if self._want is not None:
            self._want.discard(key)
            if not self._want:
                raise Enough()

    def undecided(self, key, text):
        self._und.setdefault(key, text)

    def ob(self, status, key, text):
        if status is True:
            self.ok(key)
        elif status is None:
            self.undecided(key, text)
        else:
            self.bad(key, text)

    def cond(self, I, st, key, c, text):
        """Obligation: condition c holds in the abstract state."""
        d = I.decide(st, c)
        if d is True:
            self.ok(key)
        elif I.tainted(st, c) or models.state_tainted(I, st):
            self.undecided(key, text + " [not followed]")
        else:
            self.bad(key, text + " (%s)" % show(I, st, c))
        return d

    def count(self, name, n=1):
        self._counts[name] = self._counts.get(name, 0) + n

    def floor(self, name, n):
        """A rule that matched fewer sites than it must is not quietly satisfied."""
        if self.counts.get(name, 0) < n:
            (self.undecided if self.und else self.bad)("floor:" + name, "only %d %s found, %d expected: the rule no longer sees its subject" % (self.counts.get(name, 0), name, n))

    # ---- anchors ---------------------------------------------------------------------
    def find(self, crate, name, ty=None):
        """The function `name` (of type `ty` if given) of a crate, wherever its module is."""
        hits = []
        for path, fn in self.p.fns.items():
            if not path.startswith(crate + "::") or "{" in path or not path.endswith("::" + name):
                continue
            head = path[len(crate) + 2:-len(name) - 2]
            if ty is None:
                if "<" not in head:
                    hits.append((len(head), path))
            else:
                m = re.match(r"^(?:[a-z_0-9]+::)*<(?:[a-z_0-9]+::)*([A-Za-z0-9_]+)(?:<.*>)?>$", head)
                if m and m.group(1) == ty:
                    hits.append((len(head), path))
        if not hits:
            return None
        return self.p.fns[min(hits)[1]]

    def fn(self, crate, name, ty=None):
        f = self.find(crate, name, ty)
        if f is None:
            self.bad("anchor:%s::%s%s" % (crate, ty + "::" if ty else "", name), "public function %s::%s%s not found" % (crate, ty + "::" if ty else "", name))
            raise Missing(name)
        return f

    def tfn(self, crate, trait, name, ty):
        """Method of a trait impl: <Type as Trait>::name."""
        for path, fn in self.p.fns.items():
            if path.startswith(crate + "::") and path.endswith(">::" + name) and "{" not in path:
                m = re.match(r"^(?:[a-z_0-9]+::)*<(?:[a-z_0-9]+::)*([A-Za-z0-9_]+)(?:<.*>)? as .*?%s(?:<.*>)?>::%s$" % (trait, name), path[len(crate) + 2:])
                if m and m.group(1) == ty:
                    return fn
        self.bad("anchor:%s::%s::%s" % (crate, ty, name), "method %s of %s::%s not found" % (name, crate, ty))
        raise Missing(name)

    def adt(self, crate, name):
        for path, a in self.p.adts.items():
            if path.startswith(crate + "::") and path.endswith("::" + name) and a.full:
                return a
        self.bad("anchor:%s::%s" % (crate, name), "type %s::%s not found" % (crate, name))
        raise Missing(name)

    # ---- running ------------------------------------------------------------------------
    def interp(self, budget=None, **kw):
        if self._confirm:
            budget = min(budget or 1e9, max(5.0, self._until - time.time()))
        I = Interp(self.p, budget=min(budget or 1e9, max(5.0, self.left())), **kw)
        I.ctx = self
        I.confirm = self._confirm
        self._interps.append(I)

        def wrapped(l):
            # an accumulation: the loop's own quantity is part of what wraps
            if I.rec > 0 and any(LN.SYM[s].d[0] == "var" and isinstance(LN.SYM[s].d[1], tuple) and LN.SYM[s].d[1][:1] == ("L",) for s in l.syms()):
                I.wraps.add(I.where())
        LN.ONWRAP = wrapped
        return I

    def done(self, I):
        """Collects what an interpreter run covered."""
        self.fns |= I.fn_seen
        for k, n in I.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + n
        for k, n in I.loop_info.items():
            self.loops["%s@%s" % (k[1] if len(k) > 1 else k, k[-1])] = str(n)[:200]

    def section(self, name, f, *a):
        """Runs one part of a check in its own process (they are independent of each other); results arrive at join()."""
        if os.environ.get("SMDIFF_SERIAL"):
            return self._section(name, f, *a)
        self.p
        while len(self._jobs) >= JOBS:
            self._reap()
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                self._jobs, self._child = {}, True
                for k in FIELDS:
                    setattr(self, k, type(getattr(self, k))())
                self._section(name, f, *a)
                self._recheck(name, f, *a)
                with os.fdopen(w, "wb") as o:
                    pickle.dump({k: getattr(self, k) for k in FIELDS}, o)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        self._jobs[r] = (name, pid, b"")

    def _recheck(self, name, f, *a):
        """What was not proved after a loop was generalised may only be beyond the invariants found.  It counts as a violation
        if it also fails on paths followed round by round (no generalisation); otherwise it is undecided."""
        if not self._viol:
            return
        if not any(I.generalised for I in self._interps):
            return self._reprove(name, f, *a)
        first = {k: getattr(self, k) for k in FIELDS}
        cand = first["_viol"]
        wraps = sorted(set().union(*(I.wraps for I in self._interps)))
        found = {}
        for rounds in (1, 2, 4):
            for k in FIELDS:
                setattr(self, k, type(first[k])())
            self._confirm, self._interps = rounds, []
            t = time.time()
            self._until = t + 80
            self._want = set(cand) - set(found)
            self._section(name, f, *a)
            self._want = None
            found.update(self._viol)
            for I in self._interps:
                for (kind, where, key), o in I.oblig.items():
                    if o["bad"]:
                        k = "%s:%s:%s" % (kind, where, key)
                        for k2 in cand:
                            if k2 not in found and k2.endswith(k):
                                found[k2] = cand[k2]
            if os.environ.get("SMDIFF_DEBUG"):
                print("  confirm %s rounds=%d: %d of %d in %.1f s; %s" % (name, rounds, len([k for k in cand if k in found]), len(cand), time.time() - t, dict(self._und)), file=sys.stderr)
            if all(k in found for k in cand) or self.left() < 60 or self._und:
                break
        for k in FIELDS:
            setattr(self, k, first[k])
        self._viol = {}
        for k, text in cand.items():
            if k in found:
                self._viol[k] = found[k]
            elif wraps:
                self._viol[k] = text + " (arithmetic may wrap around in %s)" % ", ".join(map(str, wraps))
            else:
                self._und.setdefault(k, "not proved, and not seen to fail on paths of a few rounds: " + text)

    def _reprove(self, name, f, *a):
        """What was not proved on exact paths is tried again with everything known taken into account each time."""
        first = {k: getattr(self, k) for k in FIELDS}
        for k in FIELDS:
            setattr(self, k, type(first[k])())
        self._interps, LN.HARD = [], True
        self._want = set(first["_viol"])
        until = time.time() + min(45, max(10, self.left() - 30))
        budget = self.interp
        self.interp = lambda b=None, **kw: budget(min(b or 1e9, max(5.0, until - time.time())), **kw)
        try:
            self._section(name, f, *a)
        finally:
            del self.interp
        LN.HARD, self._want = False, None
        again, gaveup = set(self._viol), name in self._und
        for k in FIELDS:
            setattr(self, k, first[k])
        if not gaveup:
            for k in [k for k in self._viol if k not in again]:
                self._und.setdefault(k, "proved when everything known is taken into account: " + self._viol.pop(k))

    def _reap(self):
        ready, _, _ = select.select(list(self._jobs), [], [])
        for r in ready:
            name, pid, got = self._jobs[r]
            data = os.read(r, 1 << 20)
            if data:
                self._jobs[r] = (name, pid, got + data)
                continue
            os.close(r)
            del self._jobs[r]
            os.waitpid(pid, 0)
            try:
                self._merge(pickle.loads(got))
            except Exception as e:
                self.undecided(name, "the process deciding this part ended early: %r" % e)

    def join(self):
        while self._jobs:
            self._reap()

    def _merge(self, d):
        for k, t in d["_viol"].items():
            self._viol.setdefault(k, t)
        for k, t in d["_und"].items():
            self._und.setdefault(k, t)
        for f in ("_proved", "_counts", "unmodelled"):
            m = getattr(self, f)
            for k, n in d[f].items():
                m[k] = m.get(k, 0) + n
        self.fns |= d["fns"]
        self.entries += d["entries"]
        self.notes += d["notes"]
        self.loops.update(d["loops"])

    def _joined(self, name):
        if self._jobs and not self._child:
            self.join()
        return getattr(self, name)

    viol = property(lambda self: self._joined("_viol"))
    und = property(lambda self: self._joined("_und"))
    proved = property(lambda self: self._joined("_proved"))
    counts = property(lambda self: self._joined("_counts"))

    def _section(self, name, f, *a):
        """Runs one part of a check; what the analysis cannot follow is undecided, not an alarm."""
        t = time.time()
        try:
            f(*a)
            self.entries.append((name, round(time.time() - t, 2)))
        except Missing:
            self.entries.append((name, "anchor missing"))
        except Enough:
            pass
        except (Imprecise, Budget) as e:
            self.undecided(name, "%s: %s" % (type(e).__name__, e))
        except RecursionError as e:
            self.undecided(name, "recursion limit")
        except Exception as e:
            self.undecided(name, "internal: " + repr(e)[:300] + " " + traceback.format_exc(limit=-3)[-400:].replace("\n", " | "))
            if os.environ.get("SMDIFF_DEBUG"):
                traceback.print_exc()


class Enough(Exception):
    """Everything that was to be confirmed is."""


class Missing(Exception):
    pass


def show(I, st, c):
    try:
        if isinstance(c, tuple) and c and c[0] in ("cge", "ceq", "cne"):
            l = st.f.norm(c[1])
            lo, hi = st.f.interval(l)
            return "%s %s 0 where it is %r in [%s,%s]" % ({"cge": "need", "ceq": "need", "cne": "need"}[c[0]], {"cge": ">=", "ceq": "==", "cne": "!="}[c[0]], l, lo, hi)
    except Exception:
        pass
    return str(c)[:200]


def genv(fn, **kw):
    env = {g: mkty("param", name=g) for g in fn.generics}
    env.update(kw)
    return env


def is_ok(v):
    return isinstance(v, tuple) and v[0] == "A" and v[1].k == "adt" and v[1].path == RESULT and v[2] == 0


def is_err(v):
    return isinstance(v, tuple) and v[0] == "A" and v[1].k == "adt" and v[1].path == RESULT and v[2] == 1


def panics(ck, I, prefix="", skip=None):
    """Turns the panic/arith obligations an interpreter collected into outcomes."""
    for (kind, where, key), o in sorted(I.oblig.items(), key=lambda x: str(x[0])):
        k = "%s%s:%s:%s" % (prefix, kind, where, key)
        if skip is not None and skip(kind, where, key, o):
            continue
        if o["bad"]:
            r = o["bad"][0]
            ck.bad(k, "%s may be violated in %s at %s: %s (via %s)" % (key, where, r["sp"], r["detail"], " > ".join(short(x) for x in r["stack"])))
        elif o["und"]:
            r = o["und"][0]
            ck.undecided(k, "%s in %s at %s: %s" % (key, where, r["sp"], r["detail"]))
        else:
            ck.ok(k, o["n"])


def short(p):
    return p.split("::", 1)[-1] if "::" in p else p


def vec_cell(I, st, content=None, ln=None, ty=U8):
    c = ("cell", LN.uid())
    st.mem[c] = ("Q", ty, ZERO if ln is None else ln, EMPTY if content is None else content)
    return c


def slice_cell(I, st, cell, ln, start=ZERO):
    """A cell holding a &[u8] over a Vec's cell (for use as a reader)."""
    c = ("cell", LN.uid())
    st.mem[c] = ("S", cell, (), start, ln)
    return c


def ref(cell, path=()):
    return ("R", cell, path)


def pieces(c, ln):
    """A sequence as [(base content, start, length)]."""
    if c[0] == "cat":
        out = []
        for pc, pl in c[1]:
            out += pieces(pc, pl)
        return out
    if c[0] == "sub":
        st, b = c[2], c[1]
        while b[0] == "sub":
            st, b = st.add(b[2]), b[1]
        return [(b, st, ln)]
    return [(c, ZERO, ln)]


def element(x):
    """(content, index) if x is the symbol of an element of an unknown sequence."""
    if len(x.t) != 1 or x.c:
        return None
    (i, k), = x.t.items() if hasattr(x.t, "items") else x.t
    d = LN.SYM[i].d
    if k != 1 or d[0] != "var" or not (isinstance(d[1], tuple) and len(d[1]) == 3 and d[1][0] == "el"):
        return None
    return d[1][1:]


def same_el(I, st, x, y):
    a, b = element(x), element(y)
    return a is not None and b is not None and st.f.prove_eq0(a[1].sub(b[1])) and same_base(I, st, a[0], b[0])


def same_base(I, st, a, b):
    """Are two contents the same sequence (as far as their shape tells)?"""
    while a[0] == "sub" and st.f.prove_eq0(a[2]):
        a = a[1]
    while b[0] == "sub" and st.f.prove_eq0(b[2]):
        b = b[1]
    if a == b:
        return True
    if a[0] == b[0] == "cat":
        f = st.f
        n = lambda c: f.norm(_total(c[1]))
        return same_seq(I, st, (a, n(a)), (b, n(b)))
    if a[0] == b[0] == "sub":
        return st.f.prove_eq0(a[2].sub(b[2])) and same_base(I, st, a[1], b[1])
    return False


def _total(parts):
    t = ZERO
    for _, l in parts:
        t = t.add(l)
    return t


def same_seq(I, st, a, b):
    """Do two byte sequences (content, length) hold the same bytes?  True / False (not provable)."""
    f = st.f
    if not f.prove_eq0(a[1].sub(b[1])):
        return False
    if f.prove_eq0(a[1]):
        return True
    pa = [p for p in pieces(*a) if not f.prove_eq0(p[2])]
    pb = [p for p in pieces(*b) if not f.prove_eq0(p[2])]
    i = 0
    while pa and pb:
        (ca, sa, la), (cb, sb, lb) = pa.pop(0), pb.pop(0)
        if f.prove_eq0(la.sub(lb)):
            n = la
        elif f.prove_ge0(lb.sub(la)):
            n = la
            pb.insert(0, (cb, f.norm(sb.add(la)), f.norm(lb.sub(la))))
        elif f.prove_ge0(la.sub(lb)):
            n = lb
            pa.insert(0, (ca, f.norm(sa.add(lb)), f.norm(la.sub(lb))))
        else:
            return False
        if f.prove_eq0(sa.sub(sb)) and same_base(I, st, ca, cb):
            continue
        nn = f.norm(n)
        if not nn.t and nn.c <= 64:
            ok = True
            for j in range(nn.c):
                x, y = I.celem(st, ca, U8, f.norm(sa.add(j))), I.celem(st, cb, U8, f.norm(sb.add(j)))
                if not (isinstance(x, Lin) and isinstance(y, Lin) and (x == y or f.prove_eq0(x.sub(y)) or same_el(I, st, x, y))):
                    ok = False
                    break
            if ok:
                continue
        if ca[0] == "rep" and cb[0] == "rep" and f.prove_eq0(ca[1].sub(cb[1])):
            continue
        if I.eqs is not None and (eqs.covers(I, st, ca, sa, cb, sb, n) or eqs.covers(I, st, cb, sb, ca, sa, n)):
            continue
        return False
    return not pa and not pb

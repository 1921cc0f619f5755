"""Equal ranges: what comparisons of elements, one after the other, establish about whole stretches of two sequences.

A ledger entry is a cell ("eq", uid) of the state's memory holding one end of a range; I.eqs says what it is about:
    pair  (A, B, delta):  A[k] == B[k + delta] for every k of the range
    const (A, v):         A[k] == v            for every k of the range
The other end is fixed.  Whenever a path assumes that two elements are equal, an entry whose range ends exactly there grows,
or a new one begins.  Loops generalise the moving ends like any other number (loops.py)."""
from lin import *
import lin as LN
from prog import *


def element(x):
    from base import element as e
    return e(x)


def parts(d):
    """The element symbols of d == 0: [(A, i, B, j)] for two elements, [(A, i, value)] for each one against the rest."""
    els = []
    for s, k in d.t:
        if k in (1, -1):
            e = element(S(s))
            if e is not None and e[0][0] == "u":
                els.append((e, s, k))
    pair, const = [], []
    if len(d.t) == 2 and len(els) == 2 and not d.c and els[0][2] == -els[1][2]:
        (a, _, _), (b, _, _) = els
        pair.append((a[0], a[1], b[0], b[1]))
    if len(d.t) <= 2:
        for e, s, k in els:
            rest = d.sub(S(s).scale(k)).scale(-k)
            const.append((e[0], e[1], rest))
    return pair, const


def note(I, st, d):
    """d == 0 was just assumed in st."""
    pair, const = parts(d)
    f = st.f
    for A, i, B, j in pair:
        if not (grow(I, st, ("pair", A, B), i, f.norm(j.sub(i))) | grow(I, st, ("pair", B, A), j, f.norm(i.sub(j)))):
            begin(I, st, ("pair", A, B), i, f.norm(j.sub(i)))
    if pair:
        return
    for A, i, v in const:
        if not grow(I, st, ("const", A, None), i, v):
            begin(I, st, ("const", A, None), i, v)


def grow(I, st, kind, i, x):
    f = st.f
    done = False
    for c in [c for c in st.mem if isinstance(c, tuple) and c[0] == "eq"]:
        k, off, fixed, way = I.eqs[c]
        if k != kind:
            continue
        at = st.mem[c] if way == "F" else st.mem[c].sub(1)
        d1, d2 = f.norm(i.sub(at)), f.norm(x.sub(off))
        if f.prove_eq0(d1) and f.prove_eq0(d2):
            pass
        elif c in I.eq_hope and not f.prove_ne0(d1) and not f.prove_ne0(d2):
            pass                    # only while looking for what a loop may keep true
        else:
            if f.prove_eq0(d2) and way == "F" and f.prove_ge0(i.sub(fixed)) and f.prove_ge0(st.mem[c].sub(i).sub(1)):
                done = True         # known already
            continue
        st.mem[c] = f.norm(st.mem[c].add(1 if way == "F" else -1))
        done = True
    return done


def begin(I, st, kind, i, x, n=1, way="F"):
    c = ("eq", LN.uid())
    i = st.f.norm(i)
    I.eqs[c] = (kind, x, i, way)
    I.celltype[c] = USIZE_T
    st.mem[c] = st.f.norm(i.add(n)) if way == "F" else st.f.norm(i.sub(n))
    return c


USIZE_T = mkty("int", name="usize")


def given(I, st, A, i, B, j, n):
    """Records that A[i..i+n] equals B[j..j+n]; contents may be sub-ranges and repetitions."""
    while A[0] == "sub":
        i, A = i.add(A[2]), A[1]
    while B[0] == "sub":
        j, B = j.add(B[2]), B[1]
    if A[0] == "u" and B[0] == "u":
        begin(I, st, ("pair", A, B), i, st.f.norm(j.sub(i)), n)
    elif A[0] == "u" and B[0] == "rep":
        begin(I, st, ("const", A, None), i, B[1], n)
    elif B[0] == "u" and A[0] == "rep":
        begin(I, st, ("const", B, None), j, A[1], n)


def seed(I, st, step):
    """Tries one round of a loop: ranges it begins or lengthens are candidates for growing round by round."""
    rec, I.rec = I.rec, 0
    log, I.condlog = I.condlog, None
    tr, I.eq_seeding = I.eq_seeding, True
    mine = set()
    new = {}
    known = len(LN.SYM)
    try:
        before = {c: v for c, v in st.mem.items() if isinstance(c, tuple) and c[0] == "eq"}
        conts, _ = step(st.copy())
        for s in conts:
            for c, v in s.mem.items():
                if not (isinstance(c, tuple) and c[0] == "eq"):
                    continue
                if c in before:
                    if v != before[c]:
                        mine.add(c)
                    continue
                kind, off, fixed, way = I.eqs[c]
                if way == "F" and st.f.norm(v.sub(fixed)).is_const() and all(y < known for l in (fixed, off) if isinstance(l, Lin) for y, _k in l.t):
                    new[(kind, off, fixed)] = True
    finally:
        I.rec, I.condlog, I.eq_seeding = rec, log, tr
    for kind, off, fixed in list(new)[:6]:
        mine.add(begin(I, st, kind, fixed, off, ZERO, "F"))
        mine.add(begin(I, st, kind, fixed.add(1), off, ZERO, "B"))
    return mine


def covers(I, st, ca, sa, cb, sb, n, raw=False):
    """Does the ledger show ca[sa..sa+n] == cb[sb..sb+n]?"""
    f = st.f
    cells = [c for c in st.mem if isinstance(c, tuple) and c[0] == "eq"]
    if not cells:
        return False
    use = []
    for c in cells:
        kind, off, fixed, way = I.eqs[c]
        lo, hi = (fixed, st.mem[c]) if way == "F" else (st.mem[c], fixed)
        if kind[0] == "pair":
            if ca == kind[1] and cb == kind[2] and f.prove_eq0(sb.sub(sa).sub(off)):
                use.append((lo, hi))
            if ca == kind[2] and cb == kind[1] and f.prove_eq0(sa.sub(sb).sub(off)):
                use.append((lo.add(off), hi.add(off)))
        elif cb[0] == "rep" and ca == kind[1] and f.prove_eq0(cb[1].sub(off)):
            use.append((lo, hi))
    norm = (lambda x: x) if raw else f.norm
    end = norm(sa.add(n))
    budget = [200]

    def reach(p, use):
        if f.prove_ge0(p.sub(end)):
            return True
        budget[0] -= 1
        if budget[0] < 0:
            return False
        here = [(lo, hi) for lo, hi in use if f.prove_ge0(p.sub(lo)) and f.prove_ge0(hi.sub(p)) and not f.prove_eq0(hi.sub(p))]
        if any(f.prove_ge0(hi.sub(end)) for _lo, hi in here):
            return True
        for r in here:
            if reach(f.norm(r[1]), [x for x in use if x is not r]):
                return True
        if not f.norm(end.sub(p)).is_const():
            return False
        # a single element known otherwise
        x, y = I.celem(st, ca, U8T, p), I.celem(st, cb, U8T, norm(p.add(sb).sub(sa)))
        return isinstance(x, Lin) and isinstance(y, Lin) and f.prove_eq0(x.sub(y)) and reach(norm(p.add(1)), use)

    return reach(norm(sa), use)


U8T = mkty("int", name="u8")

"""Abstract semantics of the standard library (and of the few external crates) the smdiff crates call."""
import re
from lin import *
import lin as LN
from prog import *
from interp import Imprecise, OPTION, RESULT, VEC, STRING, UNITV, EMPTY, none, some, opt_ty, res_ty

USIZE = mkty("int", name="usize")
CF = "core::ops::control_flow::ControlFlow"
MAXLEN = (1 << 63) - 1

_keymemo = {}


def simple(s):
    """Last path segment of a type, without generics and references."""
    s = s.strip()
    while s.startswith("&"):
        s = s[1:].strip()
        s = re.sub(r"^'\w+\s*", "", s)
        if s.startswith("mut "):
            s = s[4:].strip()
    if s.startswith("["):
        return "[N]" if ";" in s else "[T]"
    d = 0
    out = ""
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    return out.split("::")[-1].strip()


def key_of(path):
    r = _keymemo.get(path)
    if r is not None:
        return r
    p = path
    trait = owner = None
    m = re.match(r"^[\w]+::<(.*)>::(\w+)$", p)
    if m:
        inner, method = m.group(1), m.group(2)
        d = 0
        pos = None
        for i in range(len(inner)):
            ch = inner[i]
            if ch in "<([":
                d += 1
            elif ch in ">)]" and not (ch == ">" and i and inner[i - 1] == "-"):
                d -= 1
            elif d == 0 and inner.startswith(" as ", i):
                pos = i
                break
        if pos is not None:
            owner, trait = simple(inner[:pos]), simple(inner[pos + 4:])
            if inner.strip().startswith("&"):
                owner = "&" + owner
        else:
            owner = simple(inner)
        r = (trait, owner, method)
    else:
        segs = p.split("::")
        method = segs[-1]
        prev = segs[-2] if len(segs) > 1 else ""
        if prev[:1].isupper():
            r = (prev, None, method)
        else:
            r = (None, prev, method)
    _keymemo[path] = r
    return r


INTN = set(INT_RANGE)


class Ctx:
    __slots__ = ("I", "st", "path", "args", "targs", "dty", "site", "trait", "owner", "method", "f")


def call(I, st, path, args, targs, dty, site, f):
    trait, owner, method = key_of(path)
    c = Ctx()
    c.I, c.st, c.path, c.args, c.targs, c.dty, c.site, c.f = I, st, path, args, targs, dty, site, f
    c.trait, c.owner, c.method = trait, owner, method
    for k in ((trait, owner, method), (trait, None, method), (None, owner, method) if trait is None else (trait, "*", method),
              ("*", owner, "*"), (trait, "*", "*"), ("*", "*", method)):
        h = TABLE.get(k)
        if h is not None:
            r = h(c)
            if r is not None:
                return r
    if owner in INTN and trait in (None, "Ord", "PartialOrd", "PartialEq", "TryFrom", "From", "Default", "Clone"):
        r = int_method(c)
        if r is not None:
            return r
    if trait in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
        r = int_op(c)
        if r is not None:
            return r
    if trait in ("AddAssign", "SubAssign", "MulAssign"):
        r = int_op_assign(c)
        if r is not None:
            return r
    if trait == "Iterator" or trait == "DoubleEndedIterator" or trait == "ExactSizeIterator":
        r = iter_method(c)
        if r is not None:
            return r
    return None


TABLE = {}


def model(*keys):
    def deco(fn):
        for k in keys:
            TABLE[k] = fn
        return fn
    return deco


# ---- helpers ------------------------------------------------------------------------------
def deref(I, st, v):
    """Follows references down to a value."""
    n = 0
    while isinstance(v, tuple) and v[0] == "R":
        v = I.read(st, v[1], v[2])
        n += 1
        if n > 20:
            raise Imprecise("reference chain")
    return v


def deref1(I, st, v):
    if isinstance(v, tuple) and v[0] == "R":
        return I.read(st, v[1], v[2])
    if isinstance(v, tuple) and v[0] == "O" and v[2].k == "ref":
        return I.read(st, ("op", v[1], v[2].t), ())
    raise Imprecise("deref of " + str(v)[:50])


def to_slice(I, st, v):
    """Slice value ('S',..) for a slice reference, vec reference, array reference or string."""
    n = 0
    while True:
        if v[0] == "S":
            return v
        if v[0] == "str":
            b = v[1].encode()
            c = ("kstr", v[1])
            I.kmem[c] = ("Q", U8, L(len(b)), ("e", tuple(L(x) for x in b)))
            return ("S", c, (), ZERO, L(len(b)))
        if v[0] == "R":
            q = I.read(st, v[1], v[2])
            if isinstance(q, tuple) and q[0] == "Q":
                return ("S", v[1], v[2], ZERO, q[2])
            if isinstance(q, tuple) and q[0] in ("R", "S", "str"):
                v = q
                n += 1
                if n > 10:
                    break
                continue
        break
    raise Imprecise("slice expected: " + str(v)[:60])


def slice_q(I, st, s):
    """The Q value a slice denotes."""
    q = I.read(st, s[1], s[2])
    if q[0] != "Q":
        raise Imprecise("slice of " + str(q)[:40])
    return ("Q", q[1], s[4], I.subcontent(st, q[3], s[3], s[4]))


def slice_write(I, st, s, start, ln, content):
    """Replaces s[start..start+ln) by content."""
    q = I.read(st, s[1], s[2])
    a = st.f.norm(s[3].add(start))
    b = a.add(ln)
    rest = st.f.norm(q[2].sub(b))
    if st.f.prove_eq0(a) and st.f.prove_eq0(rest):
        c = content
    else:
        c = I.mkcat(st, ((I.subcontent(st, q[3], ZERO, a), a), (content, ln), (I.subcontent(st, q[3], b, rest), rest)))
    I.write(st, s[1], s[2], ("Q", q[1], q[2], c))


def require(c, cond, kind, key, detail=""):
    """Obligation: cond; continues in the states where it holds."""
    I, st = c.I, c.st
    cond = I.simp(st, cond)
    d = I.decide(st, cond)
    I.check(st, kind, key, cond, d, detail or cond_show(cond), c.site)
    if d is True:
        return [st]
    if d is False:
        return []
    return I.assume(st, cond)


def cond_show(c):
    return str(c)[:200]


def conj(*cs):
    r = True
    for c in cs:
        if c is False or r is False:
            return False
        if c is True:
            continue
        r = c if r is True else ("cand", r, c)
    return r


def eq_cond(I, st, a, b):
    """[(state, condition)] for structural equality."""
    a, b = deref(I, st, a) if isinstance(a, tuple) and a[0] == "R" else a, deref(I, st, b) if isinstance(b, tuple) and b[0] == "R" else b
    if a == b:
        return [(st, True)]
    if isinstance(a, Lin) and isinstance(b, Lin):
        return [(st, I.simp(st, ("ceq", a.sub(b))))]
    if I.isbool(a) and I.isbool(b):
        out = []
        for s, x in I.split(st, a):
            out.append((s, b if x else I.cnot(b)))
        return out
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] == "str" or b[0] == "str" or a[0] in ("S", "Q") or b[0] in ("S", "Q"):
            qa = a if a[0] == "Q" else slice_q(I, st, to_slice(I, st, a))
            qb = b if b[0] == "Q" else slice_q(I, st, to_slice(I, st, b))
            return [(st, seq_eq(I, st, qa, qb))]
        if a[0] in ("A", "O") and b[0] in ("A", "O"):
            out = []
            for s, x in I.variants(st, a):
                for s2, y in I.variants(s, b):
                    if x[2] != y[2]:
                        out.append((s2, False))
                        continue
                    cur = [(s2, True)]
                    for p, q in zip(x[3], y[3]):
                        nxt = []
                        for s3, cc in cur:
                            if cc is False:
                                nxt.append((s3, cc))
                                continue
                            for s4, c2 in eq_cond(I, s3, p, q):
                                nxt.append((s4, conj(cc, c2)))
                        cur = nxt
                    out += cur
            return out
    raise Imprecise("comparison of %s and %s" % (str(a)[:30], str(b)[:30]))


def seq_eq(I, st, qa, qb):
    if qa[3] == qb[3] and st.f.prove_eq0(qa[2].sub(qb[2])):
        return True
    if st.f.prove_ne0(qa[2].sub(qb[2])):
        return False
    d = st.f.norm(qa[2].sub(qb[2]))
    if qa[3][0] == "e" and qb[3][0] == "e" and not d.t and len(qa[3][1]) == len(qb[3][1]) and len(qa[3][1]) <= 16:
        r = True
        for x, y in zip(qa[3][1], qb[3][1]):
            if isinstance(x, Lin) and isinstance(y, Lin):
                r = conj(r, I.simp(st, ("ceq", x.sub(y))))
            else:
                return ("cbv", ("seqeq", qa[3], qa[2], qb[3], qb[2]))
        return r
    if I.eqs is not None:
        import base
        if base.same_seq(I, st, (qa[3], qa[2]), (qb[3], qb[2])):
            return True
    c = ("cbv", ("seqeq", qa[3], qa[2], qb[3], qb[2]))
    return conj(I.simp(st, ("ceq", d)), c)


def lin_of(I, st, v):
    v = deref(I, st, v) if isinstance(v, tuple) and v[0] == "R" else v
    if isinstance(v, Lin):
        return st.f.norm(v)
    raise Imprecise("number expected: " + str(v)[:40])


def ret(st, v=UNITV):
    return [(st, v)]


def ok(dty, v):
    return ("A", dty, 0, (v,))


def err(dty, v):
    return ("A", dty, 1, (v,))


def ioerr(dty, what):
    e = dty.args[1] if dty.k == "adt" and len(dty.args) > 1 else mkty("adt", path="core::io::error::Error")
    return err(dty, ("O", ("ioerr", what), e))


def int_ty_of(c, i=0):
    """The integer type of the receiver."""
    if c.owner in INTN:
        return mkty("int", name=c.owner)
    o = (c.owner or "").lstrip("&")
    if o in INTN:
        return mkty("int", name=o)
    if c.targs and isinstance(c.targs[0], Ty):
        t = c.targs[0]
        while t.k == "ref":
            t = t.t
        if t.k == "int":
            return t
    return None


def bool_to_states(I, st, c):
    return I.split(st, c)


# ---- integers -------------------------------------------------------------------------------
def pick(I, st, a, b, want_min):
    """min / max of two numbers."""
    d = st.f.norm(b.sub(a))
    if st.f.prove_ge0(d):
        return [(st, a if want_min else b)]
    if st.f.prove_ge0(d.neg()):
        return [(st, b if want_min else a)]
    out = []
    for s, le in I.split(st, ("cge", d)):
        out.append((s, (a if le else b) if want_min else (b if le else a)))
    return out


def int_method(c):
    I, st, m = c.I, c.st, c.method
    t = int_ty_of(c)
    if t is None:
        return None
    lo, hi, w, sg = t.rng()
    A = c.args
    f = st.f
    if m == "default":
        return ret(st, ZERO)
    if m in ("clone",):
        return ret(st, lin_of(I, st, A[0]))
    if m in ("min", "max"):
        return pick(I, st, lin_of(I, st, A[0]), lin_of(I, st, A[1]), m == "min")
    if m == "clamp":
        x, a, b = (lin_of(I, st, v) for v in A)
        out = []
        for s in require(c, ("cge", b.sub(a)), "panic", "clamp: min > max"):
            for s1, y in pick(I, s, x, a, False):
                out += pick(I, s1, y, b, True)
        return out
    if m in ("eq", "ne", "lt", "le", "gt", "ge"):
        a, b = lin_of(I, st, A[0]), lin_of(I, st, A[1])
        return ret(st, I.simp(st, I.compare(st, m.capitalize(), a, b)))
    if m == "cmp":
        return ordering(c, lin_of(I, st, A[0]), lin_of(I, st, A[1]))
    if m.startswith("wrapping_"):
        o = m[9:]
        if o in ("add", "sub", "mul"):
            return ret(st, I.arith(st, o.capitalize(), lin_of(I, st, A[0]), lin_of(I, st, A[1]), t))
        if o == "neg":
            return ret(st, wrap(f, w, sg, lin_of(I, st, A[0]).neg()))
        if o in ("shl", "shr"):
            return ret(st, I.arith(st, o.capitalize(), lin_of(I, st, A[0]), lin_of(I, st, A[1]), t))
    if m.startswith("checked_") or m.startswith("saturating_") or m.startswith("overflowing_"):
        o = m.split("_")[1]
        if o in ("add", "sub", "mul"):
            a, b = lin_of(I, st, A[0]), lin_of(I, st, A[1])
            r = a.add(b) if o == "add" else a.sub(b) if o == "sub" else mk_mul(f, a, b)
            r = f.norm(r)
            if m.startswith("overflowing_"):
                return ret(st, ("A", c.dty, 0, (wrap(f, w, sg, r), I.cnot(I.in_range(st, r, t)))))
            out = []
            for s, inr in I.split(st, I.in_range(st, r, t)):
                if inr:
                    out.append((s, some(t, r) if m.startswith("checked") else r))
                elif m.startswith("checked"):
                    out.append((s, none(t)))
                else:
                    for s2, neg in I.split(s, ("cge", r.neg().sub(1))):
                        out.append((s2, L(lo) if neg else L(hi)))
            return out
        if o in ("div", "rem") and m.startswith("checked"):
            a, b = lin_of(I, st, A[0]), lin_of(I, st, A[1])
            out = []
            for s, z in I.split(st, ("ceq", b)):
                if z:
                    out.append((s, none(t)))
                else:
                    out.append((s, some(t, I.arith(s, o.capitalize(), a, b, t))))
            return out
        if o == "neg" and m.startswith("checked"):
            r = lin_of(I, st, A[0]).neg()
            return [(s, some(t, r) if k else none(t)) for s, k in I.split(st, I.in_range(st, r, t))]
    if m == "abs_diff":
        a, b = lin_of(I, st, A[0]), lin_of(I, st, A[1])
        return [(s, a.sub(b) if k else b.sub(a)) for s, k in I.split(st, ("cge", a.sub(b)))]
    if m == "unsigned_abs":
        a = lin_of(I, st, A[0])
        return [(s, a if k else a.neg()) for s, k in I.split(st, ("cge", a))]
    if m == "abs":
        a = lin_of(I, st, A[0])
        out = []
        for s, k in I.split(st, ("cge", a)):
            if k:
                out.append((s, a))
            else:
                c.st = s
                for s2 in require(c, ("cge", a.sub(lo + 1)), "panic", "abs of the minimum"):
                    out.append((s2, a.neg()))
        return out
    if m in ("div_ceil",):
        a, b = lin_of(I, st, A[0]), lin_of(I, st, A[1])
        out = []
        for s in require(c, ("cne", b), "panic", "division by zero"):
            if s.f.prove_ge0(b.sub(1)) and s.f.prove_ge0(a):
                out.append((s, mk_div(s.f, a.add(b).sub(1), b)))
            else:
                out.append((s, fresh("~div_ceil", lo, hi)))
        return out
    if m == "is_multiple_of":
        return ret(st, ("cbv", ("~multiple", LN.uid())))
    if m == "is_power_of_two":
        return ret(st, ("cbv", ("pow2", lin_of(I, st, A[0]))))
    if m == "next_power_of_two":
        a = lin_of(I, st, A[0])
        r = S(sym(("uf", "npow2", a), 1, None))
        out = []
        for s in require(c, ("cge", L(1 << (w - 1)).sub(a)), "panic", "next_power_of_two overflows"):
            s.f.assume_ge0(r.sub(a))
            s.f.assume_ge0(L(1 << (w - 1)).sub(r))
            out.append((s, r))
        return out
    if m in ("trailing_zeros", "leading_zeros", "count_ones", "count_zeros", "trailing_ones", "leading_ones"):
        a = lin_of(I, st, A[0])
        return ret(st, S(sym(("uf", m, a), 0, w)))
    if m in ("ilog2", "pow", "isqrt"):
        return ret(st, fresh("?" + m, lo, hi))
    if m in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
        bits = to_bits(f, lin_of(I, st, A[0]), w)
        bs = [from_bits(f, bits[8 * i:8 * i + 8], 8, False) for i in range(w // 8)]
        if m == "to_be_bytes":
            bs.reverse()
        return ret(st, ("Q", U8, L(w // 8), ("e", tuple(bs))))
    if m in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
        q = A[0]
        bits = []
        idx = range(w // 8) if m != "from_be_bytes" else reversed(range(w // 8))
        for i in idx:
            bits += list(to_bits(f, I.elem(st, q, L(i)), 8))
        return ret(st, from_bits(f, bits, w, sg))
    if m in ("swap_bytes",):
        bits = to_bits(f, lin_of(I, st, A[0]), w)
        out = []
        for i in reversed(range(w // 8)):
            out += bits[8 * i:8 * i + 8]
        return ret(st, from_bits(f, out, w, sg))
    if m in ("rotate_left", "rotate_right"):
        k = lin_of(I, st, A[1])
        if k.t:
            return ret(st, fresh("?rot", lo, hi))
        k = k.c % w
        bits = to_bits(f, lin_of(I, st, A[0]), w)
        if m == "rotate_right":
            k = (w - k) % w
        return ret(st, from_bits(f, bits[w - k:] + bits[:w - k] if k else bits, w, sg))
    if m == "try_from":
        a = A[0]
        if not isinstance(a, Lin):
            return None
        return [(s, ok(c.dty, a) if k else err(c.dty, ("O", ("tryfrom",), c.dty.args[1])))
                for s, k in I.split(st, I.in_range(st, a, t))]
    if m == "from":
        if isinstance(A[0], Lin):
            return ret(st, A[0])
        if I.isbool(A[0]):
            return [(s, L(int(k))) for s, k in I.split(st, A[0])]
    return None


def ordering(c, a, b):
    I, st = c.I, c.st
    out = []
    t = c.dty
    for s, lt in I.split(st, ("cge", b.sub(a).sub(1))):
        if lt:
            out.append((s, ("A", t, 0, ())))
        else:
            for s2, eq in I.split(s, ("ceq", a.sub(b))):
                out.append((s2, ("A", t, 1 if eq else 2, ())))
    return out


@model((None, "*", "try_into"), ("TryInto", None, "try_into"))
def m_try_into(c):
    a = c.args[0]
    if isinstance(a, Lin) and c.dty.k == "adt" and c.dty.path == RESULT and c.dty.args[0].is_int():
        t = c.dty.args[0]
        return [(s, ok(c.dty, a) if k else err(c.dty, ("O", ("tryfrom",), c.dty.args[1])))
                for s, k in c.I.split(c.st, c.I.in_range(c.st, a, t))]
    if isinstance(a, tuple) and a[0] in ("S", "R") and c.dty.k == "adt" and c.dty.path == RESULT:
        t = c.dty.args[0]
        if t.k == "array" and isinstance(t.len, int):
            q = slice_q(c.I, c.st, to_slice(c.I, c.st, a))
            out = []
            for s, k in c.I.split(c.st, ("ceq", q[2].sub(t.len))):
                if k:
                    out.append((s, ok(c.dty, ("Q", q[1], L(t.len), ("e", tuple(c.I.elem(s, q, L(i)) for i in range(t.len))) if t.len <= 64 else q[3]))))
                else:
                    out.append((s, err(c.dty, ("O", ("tryfrom",), c.dty.args[1]))))
            return out
    return None


@model(("TryFrom", "*", "try_from"), ("TryFrom", None, "try_from"))
def m_try_from(c):
    return m_try_into(c)


@model(("Into", "*", "into"), ("Into", None, "into"), ("From", "*", "from"))
def m_into(c):
    a = c.args[0]
    if isinstance(a, Lin) and c.dty.is_int():
        return ret(c.st, a)
    if c.I.isbool(a) and c.dty.is_int():
        return [(s, L(int(k))) for s, k in c.I.split(c.st, a)]
    if isinstance(a, tuple) and a[0] == "str":
        return ret(c.st, c.I.opaque_val(("~string", LN.uid()), c.dty))
    if isinstance(a, tuple) and c.I.typeof(a) is c.dty:
        return ret(c.st, a)
    if c.dty.k == "adt" and c.dty.path == VEC and isinstance(a, tuple) and a[0] in ("S", "R", "Q"):
        q = a if a[0] == "Q" else slice_q(c.I, c.st, to_slice(c.I, c.st, a))
        return ret(c.st, q)
    return None


def int_op(c):
    """std::ops traits through references."""
    I, st = c.I, c.st
    t = int_ty_of(c)
    if t is None:
        return None
    a, b = lin_of(I, st, c.args[0]), lin_of(I, st, c.args[1])
    op = c.trait
    if op in ("Add", "Sub", "Mul"):
        r = I.arith(st, op + "WithOverflow", a, b, t)
        out = []
        for s in require(c, I.cnot(r[3][1]), "panic", "attempt to %s with overflow" % op.lower(), "%s: %r, %r" % (op, a, b)):
            out.append((s, r[3][0]))
        return out
    if op in ("Div", "Rem"):
        return [(s, I.arith(s, op, a, b, t)) for s in require(c, ("cne", b), "panic", "division by zero")]
    return ret(st, I.arith(st, op, a, b, t))


def int_op_assign(c):
    I, st = c.I, c.st
    t = int_ty_of(c)
    if t is None or c.args[0][0] != "R":
        return None
    a, b = lin_of(I, st, c.args[0]), lin_of(I, st, c.args[1])
    op = c.trait[:3]
    r = I.arith(st, op + "WithOverflow", a, b, t)
    out = []
    for s in require(c, I.cnot(r[3][1]), "panic", "attempt to %s with overflow" % op.lower()):
        I.write(s, c.args[0][1], c.args[0][2], r[3][0])
        out.append((s, UNITV))
    return out


# ---- comparison / clone / default --------------------------------------------------------------
@model(("PartialEq", "*", "eq"), ("PartialEq", None, "eq"), ("PartialEq", "*", "ne"), ("PartialEq", None, "ne"))
def m_eq(c):
    out = []
    for s, x in eq_cond(c.I, c.st, c.args[0], c.args[1]):
        out.append((s, x if c.method == "eq" else c.I.cnot(x)))
    return out


@model(*[("PartialOrd", o, m) for m in ("lt", "le", "gt", "ge") for o in ("*", None)])
def m_ord(c):
    a, b = deref(c.I, c.st, c.args[0]), deref(c.I, c.st, c.args[1])
    if isinstance(a, Lin) and isinstance(b, Lin):
        return ret(c.st, c.I.simp(c.st, c.I.compare(c.st, c.method.capitalize(), a, b)))
    return None


@model(("Ord", "*", "cmp"), ("Ord", None, "cmp"))
def m_cmp(c):
    a, b = deref(c.I, c.st, c.args[0]), deref(c.I, c.st, c.args[1])
    if isinstance(a, Lin) and isinstance(b, Lin):
        return ordering(c, a, b)
    return None


@model(("Ord", "*", "min"), ("Ord", "*", "max"), ("Ord", None, "min"), ("Ord", None, "max"),
       (None, "cmp", "min"), (None, "cmp", "max"))
def m_minmax(c):
    a, b = c.args
    if isinstance(a, Lin) and isinstance(b, Lin):
        return pick(c.I, c.st, c.st.f.norm(a), c.st.f.norm(b), c.method == "min")
    if c.dty.k == "ref" and c.dty.t.k == "int":
        # references to numbers: the one to the smaller (on a tie min gives the first, max the second)
        x, y = lin_of(c.I, c.st, a), lin_of(c.I, c.st, b)
        first = ("cge", y.sub(x)) if c.method == "min" else ("cge", x.sub(y).sub(1))
        return [(s1, a if k else b) for s1, k in c.I.split(c.st, c.I.simp(c.st, first))]
    return None


@model(("Clone", "*", "clone"), ("Clone", None, "clone"), ("ToOwned", "*", "to_owned"))
def m_clone(c):
    v = deref1(c.I, c.st, c.args[0]) if c.args[0][0] == "R" else None
    if v is None:
        q = slice_q(c.I, c.st, to_slice(c.I, c.st, c.args[0]))
        c.I.hook("alloc", c.st, q[2], q[1], c.site, "clone")
        return ret(c.st, q)
    if isinstance(v, tuple) and v[0] == "Q":
        c.I.hook("alloc", c.st, v[2], v[1], c.site, "clone")
    return ret(c.st, v)


@model(("Default", "*", "default"), ("Default", None, "default"))
def m_default(c):
    t = c.dty
    if t.k == "int":
        return ret(c.st, ZERO)
    if t.k == "bool":
        return ret(c.st, False)
    if t.k == "adt" and t.path in (VEC, STRING):
        return ret(c.st, ("Q", t.args[0] if t.path == VEC else U8, ZERO, EMPTY))
    if t.k == "adt" and t.path == OPTION:
        return ret(c.st, none(t.args[0]))
    return None


@model((None, "mem", "take"))
def m_take(c):
    v = c.args[0]
    old = c.I.read(c.st, v[1], v[2])
    t = c.dty
    if t.k == "adt" and t.path in (VEC, STRING):
        new = ("Q", t.args[0] if t.path == VEC else U8, ZERO, EMPTY)
    elif t.k == "adt" and t.path == OPTION:
        new = none(t.args[0])
    elif t.k == "int":
        new = ZERO
    elif t.k == "bool":
        new = False
    else:
        c2 = Ctx()
        r = c.I.p.resolve_impl("core::default::Default::default", t)
        fn = c.I.p.fns.get(r[0]) if r else None
        if fn is None:
            return None
        out = []
        for s, n in c.I.call_fn(c.st, fn, [], dict(r[1])):
            c.I.write(s, v[1], v[2], n)
            out.append((s, old))
        return out
    c.I.write(c.st, v[1], v[2], new)
    return ret(c.st, old)


@model((None, "mem", "replace"))
def m_replace(c):
    v = c.args[0]
    old = c.I.read(c.st, v[1], v[2])
    c.I.write(c.st, v[1], v[2], c.args[1])
    return ret(c.st, old)


@model((None, "mem", "swap"))
def m_swap(c):
    a, b = c.args
    x, y = c.I.read(c.st, a[1], a[2]), c.I.read(c.st, b[1], b[2])
    c.I.write(c.st, a[1], a[2], y)
    c.I.write(c.st, b[1], b[2], x)
    return ret(c.st)


@model((None, "mem", "drop"))
def m_drop(c):
    return ret(c.st)


@model((None, "mem", "size_of"))
def m_size_of(c):
    t = c.targs[0]
    if t.k == "int":
        return ret(c.st, L(t.rng()[2] // 8))
    if t.k == "bool":
        return ret(c.st, L(1))
    return ret(c.st, named(("sizeof", t.id), 0, 1 << 32))


@model((None, "hint", "must_use"), (None, "hint", "black_box"))
def m_id(c):
    return ret(c.st, c.args[0])


@model(("*", "Argument", "*"), ("*", "Arguments", "*"), (None, "fmt", "format"), ("*", "Formatter", "*"), ("ToString", "*", "to_string"),
       ("ToString", None, "to_string"))
def m_fmt(c):
    t = c.dty
    return ret(c.st, c.I.opaque_val(("~fmt", LN.uid()), t))


@model((None, "Error", "new"), (None, "Error", "other"), (None, "Error", "from"), ("From", "Error", "from"))
def m_ioerr(c):
    k = c.args[0][2] if c.args and isinstance(c.args[0], tuple) and c.args[0][0] == "A" else "?"
    return ret(c.st, ("O", ("ioerr", k), c.dty))


@model((None, "Error", "kind"))
def m_errkind(c):
    v = deref(c.I, c.st, c.args[0])
    u = v[1] if isinstance(v, tuple) and v[0] == "O" else LN.uid()
    return ret(c.st, c.I.opaque_val(("errkind", u), c.dty))


# ---- panics ---------------------------------------------------------------------------------------
@model((None, "panicking", "panic"), (None, "panicking", "panic_fmt"), (None, "panicking", "assert_failed"),
       (None, "panicking", "panic_bounds_check"), (None, "panicking", "unreachable_display"), (None, "panicking", "panic_explicit"),
       (None, "panicking", "panic_display"), (None, "panicking", "panic_str_2015"), (None, "panicking", "assert_failed_inner"))
def m_panic(c):
    msg = c.args[0][1] if c.args and isinstance(c.args[0], tuple) and c.args[0][0] == "str" else c.method
    I = c.I
    if "panic" in I.panic_quiet:
        return []
    taint = state_tainted(I, c.st)
    I.oblige(c.st, "panic", "explicit panic: %s" % msg, None if taint else False, "reachable panic!/assert!/unreachable!", c.site)
    return []


def state_tainted(I, st):
    """Did this partition depend on a decision about something unknown?"""
    for u in st.var:
        if LNT(u):
            return True
    for c in st.f.cons:
        if I.lin_tainted(st, c):
            return True
    for s in list(st.f.bnd) + list(st.f.sub):
        import interp
        if interp.sym_tainted(s):
            return True
    return False


def LNT(u):
    import interp
    return interp.uid_tainted(u)


# ---- Option / Result --------------------------------------------------------------------------------
def opt_variants(I, st, v):
    v2 = v
    return I.variants(st, v2)


def ety(v):
    return v[1].args[0] if v[1].k == "adt" and v[1].args else mkty("tuple")


@model(*[(None, "Option", m) for m in (
    "is_some", "is_none", "unwrap", "expect", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "map", "map_or", "map_or_else", "and_then", "ok_or", "ok_or_else",
    "as_ref", "as_mut", "as_deref", "as_deref_mut", "take", "replace", "insert", "get_or_insert", "get_or_insert_with", "filter", "or", "or_else", "and", "is_some_and", "is_none_or",
    "copied", "cloned", "xor", "zip", "iter", "unwrap_unchecked", "flatten", "transpose", "inspect")])
def m_option(c):
    I, m, A = c.I, c.method, c.args
    byref = m in ("is_some", "is_none", "as_ref", "as_mut", "as_deref", "as_deref_mut", "take", "replace", "insert", "get_or_insert", "get_or_insert_with", "iter")
    v = A[0]
    out = []
    if byref:
        if v[0] != "R":
            raise Imprecise("option reference")
        cur = I.read(c.st, v[1], v[2])
    else:
        cur = v
    for st, x in I.variants(c.st, cur):
        if byref and cur[0] == "O":
            I.write(st, v[1], v[2], x)
        has = x[2] == 1
        p = x[3][0] if has else None
        if m == "is_some":
            out.append((st, has))
        elif m == "is_none":
            out.append((st, not has))
        elif m in ("unwrap", "expect", "unwrap_unchecked"):
            if has:
                I.oblige(st, "panic", "unwrap/expect of None", True)
                out.append((st, p))
            else:
                I.oblige(st, "panic", "unwrap/expect of None", None if taint_decision(I, st, cur) else False, "Option::%s on None" % m, c.site)
        elif m == "unwrap_or":
            out.append((st, p if has else A[1]))
        elif m == "unwrap_or_else":
            out += [(st, p)] if has else I.call_value(st, A[1], [], c.dty, c.site)
        elif m == "unwrap_or_default":
            if has:
                out.append((st, p))
            else:
                c.st = st
                r = m_default(c)
                if r is None:
                    raise Imprecise("default")
                out += r
        elif m == "map":
            rt = c.dty.args[0]
            if has:
                out += [(s, some(rt, y)) for s, y in I.call_value(st, A[1], [p], rt, c.site)]
            else:
                out.append((st, none(rt)))
        elif m == "inspect":
            if has:
                cc = I.newcell()
                st.mem[cc] = p
                out += [(s, x) for s, _ in I.call_value(st, A[1], [("R", cc, ())], UNIT, c.site)]
            else:
                out.append((st, x))
        elif m == "map_or":
            out += I.call_value(st, A[2], [p], c.dty, c.site) if has else [(st, A[1])]
        elif m == "map_or_else":
            out += I.call_value(st, A[2], [p], c.dty, c.site) if has else I.call_value(st, A[1], [], c.dty, c.site)
        elif m == "and_then":
            out += I.call_value(st, A[1], [p], c.dty, c.site) if has else [(st, ("A", c.dty, 0, ()))]
        elif m in ("is_some_and",):
            out += I.call_value(st, A[1], [p], BOOL, c.site) if has else [(st, False)]
        elif m == "is_none_or":
            out += I.call_value(st, A[1], [p], BOOL, c.site) if has else [(st, True)]
        elif m == "ok_or":
            out.append((st, ok(c.dty, p) if has else err(c.dty, A[1])))
        elif m == "ok_or_else":
            if has:
                out.append((st, ok(c.dty, p)))
            else:
                out += [(s, err(c.dty, e)) for s, e in I.call_value(st, A[1], [], c.dty.args[1], c.site)]
        elif m in ("as_ref", "as_mut"):
            out.append((st, ("A", c.dty, 1, (("R", v[1], v[2] + (("v", 1), 0)),)) if has else ("A", c.dty, 0, ())))
        elif m in ("as_deref", "as_deref_mut"):
            if has:
                r = ("R", v[1], v[2] + (("v", 1), 0))
                if p[0] == "Q":
                    r = to_slice(I, st, r)
                elif p[0] in ("R", "S"):
                    r = p
                out.append((st, ("A", c.dty, 1, (r,))))
            else:
                out.append((st, ("A", c.dty, 0, ())))
        elif m == "take":
            I.write(st, v[1], v[2], ("A", x[1], 0, ()))
            out.append((st, x))
        elif m == "replace":
            I.write(st, v[1], v[2], ("A", x[1], 1, (A[1],)))
            out.append((st, x))
        elif m == "insert":
            I.write(st, v[1], v[2], ("A", x[1], 1, (A[1],)))
            out.append((st, ("R", v[1], v[2] + (("v", 1), 0))))
        elif m in ("get_or_insert", "get_or_insert_with"):
            sts = [st]
            if not has:
                sts = []
                for s, n in ([(st, A[1])] if m == "get_or_insert" else I.call_value(st, A[1], [], ety(x), c.site)):
                    I.write(s, v[1], v[2], ("A", x[1], 1, (n,)))
                    sts.append(s)
            for s in sts:
                out.append((s, ("R", v[1], v[2] + (("v", 1), 0))))
        elif m == "filter":
            if not has:
                out.append((st, x))
            else:
                cc = I.newcell()
                st.mem[cc] = p
                for s, b in I.call_value(st, A[1], [("R", cc, ())], BOOL, c.site):
                    for s2, k in I.split(s, b):
                        out.append((s2, x if k else ("A", x[1], 0, ())))
        elif m == "or":
            out.append((st, x if has else A[1]))
        elif m == "or_else":
            out += [(st, x)] if has else I.call_value(st, A[1], [], c.dty, c.site)
        elif m == "and":
            out.append((st, A[1] if has else ("A", c.dty, 0, ())))
        elif m in ("copied", "cloned"):
            out.append((st, some(c.dty.args[0], deref1(I, st, p)) if has else none(c.dty.args[0])))
        elif m == "zip":
            if not has:
                out.append((st, ("A", c.dty, 0, ())))
            else:
                for s, y in I.variants(st, A[1]):
                    out.append((s, ("A", c.dty, 1, (("A", c.dty.args[0], 0, (p, y[3][0])),)) if y[2] == 1 else ("A", c.dty, 0, ())))
        elif m == "flatten":
            out.append((st, p if has else ("A", c.dty, 0, ())))
        elif m == "transpose":
            if not has:
                out.append((st, ok(c.dty, ("A", c.dty.args[0], 0, ()))))
            else:
                for s, y in I.variants(st, p):
                    out.append((s, ok(c.dty, ("A", c.dty.args[0], 1, (y[3][0],))) if y[2] == 0 else err(c.dty, y[3][0])))
        else:
            raise Imprecise("Option::" + m)
    return out


def taint_decision(I, st, v):
    if isinstance(v, tuple) and v[0] == "O" and LNT(v[1]):
        return True
    return state_tainted(I, st)


@model(*[(None, "Result", m) for m in (
    "is_ok", "is_err", "unwrap", "expect", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "map", "map_err", "and_then", "ok", "err", "as_ref", "as_mut", "or_else", "unwrap_err",
    "is_ok_and", "is_err_and", "expect_err", "map_or", "and", "or", "inspect", "inspect_err", "map_or_else")])
def m_result(c):
    I, m, A = c.I, c.method, c.args
    byref = m in ("is_ok", "is_err", "as_ref", "as_mut")
    v = A[0]
    cur = I.read(c.st, v[1], v[2]) if byref else v
    out = []
    for st, x in I.variants(c.st, cur):
        if byref and cur[0] == "O":
            I.write(st, v[1], v[2], x)
        good = x[2] == 0
        p = x[3][0]
        if m == "is_ok":
            out.append((st, good))
        elif m == "is_err":
            out.append((st, not good))
        elif m in ("unwrap", "expect", "unwrap_err", "expect_err"):
            want = good if m in ("unwrap", "expect") else not good
            if want:
                I.oblige(st, "panic", "unwrap/expect of Err", True)
                out.append((st, p))
            else:
                I.oblige(st, "panic", "unwrap/expect of Err", None if taint_decision(I, st, cur) else False, "Result::%s" % m, c.site)
        elif m == "unwrap_or":
            out.append((st, p if good else A[1]))
        elif m == "unwrap_or_else":
            out += [(st, p)] if good else I.call_value(st, A[1], [p], c.dty, c.site)
        elif m == "unwrap_or_default":
            if good:
                out.append((st, p))
            else:
                c.st = st
                r = m_default(c)
                if r is None:
                    raise Imprecise("default")
                out += r
        elif m == "map":
            if good:
                out += [(s, ok(c.dty, y)) for s, y in I.call_value(st, A[1], [p], c.dty.args[0], c.site)]
            else:
                out.append((st, err(c.dty, p)))
        elif m == "map_err":
            if good:
                out.append((st, ok(c.dty, p)))
            else:
                out += [(s, err(c.dty, y)) for s, y in I.call_value(st, A[1], [p], c.dty.args[1], c.site)]
        elif m in ("inspect", "inspect_err"):
            if good == (m == "inspect"):
                cc = I.newcell()
                st.mem[cc] = p
                out += [(s, x) for s, _ in I.call_value(st, A[1], [("R", cc, ())], UNIT, c.site)]
            else:
                out.append((st, x))
        elif m == "map_or":
            out += I.call_value(st, A[2], [p], c.dty, c.site) if good else [(st, A[1])]
        elif m == "map_or_else":
            out += I.call_value(st, A[2], [p], c.dty, c.site) if good else I.call_value(st, A[1], [p], c.dty, c.site)
        elif m == "and_then":
            out += I.call_value(st, A[1], [p], c.dty, c.site) if good else [(st, err(c.dty, p))]
        elif m == "or_else":
            out += [(st, ok(c.dty, p))] if good else I.call_value(st, A[1], [p], c.dty, c.site)
        elif m == "and":
            out.append((st, A[1] if good else err(c.dty, p)))
        elif m == "or":
            out.append((st, ok(c.dty, p) if good else A[1]))
        elif m == "is_ok_and":
            out += I.call_value(st, A[1], [p], BOOL, c.site) if good else [(st, False)]
        elif m == "is_err_and":
            out += I.call_value(st, A[1], [p], BOOL, c.site) if not good else [(st, False)]
        elif m == "ok":
            out.append((st, some(c.dty.args[0], p) if good else none(c.dty.args[0])))
        elif m == "err":
            out.append((st, some(c.dty.args[0], p) if not good else none(c.dty.args[0])))
        elif m in ("as_ref", "as_mut"):
            out.append((st, ("A", c.dty, x[2], (("R", v[1], v[2] + (("v", x[2]), 0)),))))
        else:
            raise Imprecise("Result::" + m)
    return out


@model(("Try", "Result", "branch"))
def m_branch(c):
    out = []
    for st, x in c.I.variants(c.st, c.args[0]):
        if x[2] == 0:
            out.append((st, ("A", c.dty, 0, (x[3][0],))))
        else:
            out.append((st, ("A", c.dty, 1, (("A", c.dty.args[0], 1, (x[3][0],)),))))
    return out


@model(("Try", "Option", "branch"))
def m_obranch(c):
    out = []
    for st, x in c.I.variants(c.st, c.args[0]):
        if x[2] == 1:
            out.append((st, ("A", c.dty, 0, (x[3][0],))))
        else:
            out.append((st, ("A", c.dty, 1, (("A", c.dty.args[0], 0, ()),))))
    return out


@model(("FromResidual", "Result", "from_residual"))
def m_fromres(c):
    e = c.args[0][3][0]
    return ret(c.st, ("A", c.dty, 1, (e,)))


@model(("FromResidual", "Option", "from_residual"))
def m_ofromres(c):
    return ret(c.st, ("A", c.dty, 0, ()))


@model(("Deref", "*", "deref"), ("DerefMut", "*", "deref_mut"), ("AsRef", "*", "as_ref"), ("AsMut", "*", "as_mut"), ("Borrow", "*", "borrow"),
       ("Deref", None, "deref"), ("DerefMut", None, "deref_mut"))
def m_deref(c):
    v = c.args[0]
    if v[0] == "S":
        return ret(c.st, v)
    if v[0] == "R":
        x = c.I.read(c.st, v[1], v[2])
        if isinstance(x, tuple):
            if x[0] == "Q":
                return ret(c.st, ("S", v[1], v[2], ZERO, x[2]))
            if x[0] in ("R", "S", "str"):
                return ret(c.st, x)
    return None


@model((None, "[T]", "as_slice"), (None, "Vec", "as_slice"), (None, "Vec", "as_mut_slice"), (None, "String", "as_bytes"), (None, "str", "as_bytes"),
       (None, "String", "as_str"), (None, "[N]", "as_slice"), (None, "array", "as_slice"))
def m_as_slice(c):
    return ret(c.st, to_slice(c.I, c.st, c.args[0]))


# ---- Vec -----------------------------------------------------------------------------------------------
def vec_at(c, i=0):
    v = c.args[i]
    n = 0
    while v[0] == "R":
        q = c.I.read(c.st, v[1], v[2])
        if q[0] == "Q":
            return v, q
        v = q
        n += 1
        if n > 10:
            break
    raise Imprecise("vector expected")


@model((None, "Vec", "new"), (None, "String", "new"))
def m_vnew(c):
    t = c.dty
    return ret(c.st, ("Q", t.args[0] if t.path == VEC else U8, ZERO, EMPTY))


@model((None, "Vec", "with_capacity"), (None, "String", "with_capacity"))
def m_vcap(c):
    t = c.dty
    et = t.args[0] if t.path == VEC else U8
    c.I.hook("alloc", c.st, c.args[0], et, c.site, "with_capacity")
    return ret(c.st, ("Q", et, ZERO, EMPTY))


@model((None, "Vec", "reserve"), (None, "Vec", "reserve_exact"))
def m_reserve(c):
    v, q = vec_at(c)
    c.I.hook("alloc", c.st, c.args[1], q[1], c.site, "reserve")
    return ret(c.st)


@model((None, "Vec", "len"), (None, "[T]", "len"), (None, "String", "len"), (None, "str", "len"), (None, "[N]", "len"))
def m_len(c):
    s = to_slice(c.I, c.st, c.args[0])
    return ret(c.st, c.st.f.norm(s[4]))


@model((None, "Vec", "is_empty"), (None, "[T]", "is_empty"), (None, "String", "is_empty"))
def m_isempty(c):
    s = to_slice(c.I, c.st, c.args[0])
    return ret(c.st, c.I.simp(c.st, ("ceq", s[4])))


@model((None, "Vec", "capacity"))
def m_cap(c):
    v, q = vec_at(c)
    r = fresh("~cap", 0, MAXLEN)
    c.st.f.assume_ge0(r.sub(q[2]))
    return ret(c.st, r)


def pushq(I, st, q, val):
    return ("Q", q[1], st.f.norm(q[2].add(1)), I.mkcat(st, ((q[3], q[2]), (("e", (val,)), ONE))))


@model((None, "Vec", "push"))
def m_push(c):
    v, q = vec_at(c)
    c.I.hook("push", c.st, q, c.args[1], c.site, v)
    c.I.write(c.st, v[1], v[2], pushq(c.I, c.st, q, c.args[1]))
    return ret(c.st)


@model((None, "Vec", "pop"))
def m_pop(c):
    I = c.I
    v, q = vec_at(c)
    out = []
    t = c.dty.args[0]
    for s, e in I.split(c.st, I.simp(c.st, ("ceq", q[2]))):
        if e:
            out.append((s, none(t)))
        else:
            n = s.f.norm(q[2].sub(1))
            I.elem_axiom(s, q[1], q[3], n)
            x = I.elem(s, q, n)
            I.write(s, v[1], v[2], ("Q", q[1], n, I.subcontent(s, q[3], ZERO, n)))
            out.append((s, some(t, x)))
    return out


@model((None, "Vec", "clear"), (None, "String", "clear"))
def m_clear(c):
    v, q = vec_at(c)
    c.I.write(c.st, v[1], v[2], ("Q", q[1], ZERO, EMPTY))
    return ret(c.st)


@model((None, "Vec", "truncate"))
def m_trunc(c):
    v, q = vec_at(c)
    out = []
    for s, n in pick(c.I, c.st, c.args[1], q[2], True):
        c.I.write(s, v[1], v[2], ("Q", q[1], n, c.I.subcontent(s, q[3], ZERO, n)))
        out.append((s, UNITV))
    return out


@model((None, "Vec", "resize"))
def m_resize(c):
    I = c.I
    v, q = vec_at(c)
    n = c.args[1]
    I.hook("alloc", c.st, n, q[1], c.site, "resize")
    out = []
    for s, grow in I.split(c.st, ("cge", n.sub(q[2]))):
        if grow:
            d = s.f.norm(n.sub(q[2]))
            new = ("Q", q[1], n, I.mkcat(s, ((q[3], q[2]), (("rep", c.args[2]), d))))
        else:
            new = ("Q", q[1], n, I.subcontent(s, q[3], ZERO, n))
        I.write(s, v[1], v[2], new)
        out.append((s, UNITV))
    return out


@model((None, "Vec", "split_off"))
def m_splitoff(c):
    I = c.I
    v, q = vec_at(c)
    at = c.args[1]
    out = []
    for s in require(c, ("cge", q[2].sub(at)), "panic", "split_off out of range", "%r of %r" % (at, q[2])):
        rest = s.f.norm(q[2].sub(at))
        tail = ("Q", q[1], rest, I.subcontent(s, q[3], at, rest))
        I.write(s, v[1], v[2], ("Q", q[1], at, I.subcontent(s, q[3], ZERO, at)))
        out.append((s, tail))
    return out


@model((None, "Vec", "append"))
def m_append(c):
    v, q = vec_at(c)
    w, r = vec_at(c, 1)
    new = ("Q", q[1], c.st.f.norm(q[2].add(r[2])), c.I.mkcat(c.st, ((q[3], q[2]), (r[3], r[2]))))
    c.I.hook("extend", c.st, q, r, c.site, v)
    c.I.write(c.st, v[1], v[2], new)
    c.I.write(c.st, w[1], w[2], ("Q", r[1], ZERO, EMPTY))
    return ret(c.st)


@model((None, "Vec", "extend_from_slice"))
def m_efs(c):
    v, q = vec_at(c)
    r = slice_q(c.I, c.st, to_slice(c.I, c.st, c.args[1]))
    c.I.hook("extend", c.st, q, r, c.site, v)
    new = ("Q", q[1], c.st.f.norm(q[2].add(r[2])), c.I.mkcat(c.st, ((q[3], q[2]), (r[3], r[2]))))
    c.I.write(c.st, v[1], v[2], new)
    return ret(c.st)


@model((None, "Vec", "insert"))
def m_insert(c):
    I = c.I
    v, q = vec_at(c)
    at = c.args[1]
    out = []
    for s in require(c, ("cge", q[2].sub(at)), "panic", "insert out of range"):
        rest = s.f.norm(q[2].sub(at))
        new = I.mkcat(s, ((I.subcontent(s, q[3], ZERO, at), at), (("e", (c.args[2],)), ONE), (I.subcontent(s, q[3], at, rest), rest)))
        I.write(s, v[1], v[2], ("Q", q[1], s.f.norm(q[2].add(1)), new))
        out.append((s, UNITV))
    return out


@model((None, "Vec", "remove"), (None, "Vec", "swap_remove"))
def m_remove(c):
    I = c.I
    v, q = vec_at(c)
    at = c.args[1]
    out = []
    for s in require(c, ("cge", q[2].sub(at).sub(1)), "panic", "remove out of range"):
        x = I.elem(s, q, at)
        rest = s.f.norm(q[2].sub(at).sub(1))
        if c.method == "swap_remove":
            n1 = s.f.norm(q[2].sub(1))
            last = I.elem(s, q, n1)
            for s2, end in I.split(s, I.simp(s, ("ceq", rest))):
                if end:
                    new = I.subcontent(s2, q[3], ZERO, n1)
                else:
                    r = s2.f.norm(rest.sub(1))
                    new = I.mkcat(s2, ((I.subcontent(s2, q[3], ZERO, at), at), (("e", (last,)), L(1)), (I.subcontent(s2, q[3], at.add(1), r), r)))
                I.write(s2, v[1], v[2], ("Q", q[1], n1, new))
                out.append((s2, x))
            continue
        new = I.mkcat(s, ((I.subcontent(s, q[3], ZERO, at), at), (I.subcontent(s, q[3], at.add(1), rest), rest)))
        I.write(s, v[1], v[2], ("Q", q[1], s.f.norm(q[2].sub(1)), new))
        out.append((s, x))
    return out


@model((None, "Vec", "retain"), (None, "Vec", "retain_mut"))
def m_retain(c):
    I = c.I
    v, q = vec_at(c)
    acc, tmp = I.newcell(), I.newcell()
    c.st.mem[acc] = ("Q", q[1], ZERO, EMPTY)

    def body(s, x):
        s.mem[tmp] = x
        out = []
        for s2, b in I.call_value(s, c.args[1], [("R", tmp, ())], BOOL, c.site):
            for s3, k in I.split(s2, b):
                y = s3.mem.pop(tmp, x)
                if k:
                    s3.mem[acc] = pushq(I, s3, s3.mem[acc], y)
                out.append((s3, True))
        return out
    out = []
    for s in consume(I, c.st, ("I", "vals", q, ZERO, q[2]), body, c.site, "retain"):
        new = s.mem.pop(acc)
        I.write(s, v[1], v[2], new)
        out.append((s, UNITV))
    return out


@model((None, "bool", "then_some"), (None, "bool", "then"))
def m_then(c):
    I = c.I
    out = []
    for s, k in I.split(c.st, c.args[0]):
        if not k:
            out.append((s, ("A", c.dty, 0, ())))
        elif c.method == "then_some":
            out.append((s, ("A", c.dty, 1, (c.args[1],))))
        else:
            for s2, x in I.call_value(s, c.args[1], [], c.dty.args[0], c.site):
                out.append((s2, ("A", c.dty, 1, (x,))))
    return out


@model((None, "Vec", "drain"))
def m_drain(c):
    I = c.I
    v, q = vec_at(c)
    out = []
    for s, a, b in range_of(c, c.args[1], q[2]):
        n = s.f.norm(b.sub(a))
        piece = ("Q", q[1], n, I.subcontent(s, q[3], a, n))
        rest = s.f.norm(q[2].sub(b))
        new = I.mkcat(s, ((I.subcontent(s, q[3], ZERO, a), a), (I.subcontent(s, q[3], b, rest), rest)))
        I.write(s, v[1], v[2], ("Q", q[1], s.f.norm(q[2].sub(n)), new))
        out.append((s, ("I", "vals", piece, ZERO, n)))
    return out


@model((None, "Box", "new_uninit"))
def m_newuninit(c):
    """The box behind vec![a, b, ..]."""
    t = c.dty.args[0].args[0] if c.dty.args and c.dty.args[0].k == "adt" and c.dty.args[0].args else None
    if t is None or t.k != "array" or not isinstance(t.len, int):
        return None
    cell = c.I.newcell()
    q = ("Q", t.t, L(t.len), ("u", ("~uninit", LN.uid())))
    c.st.mem[cell] = ("A", c.dty.args[0], 0, (UNITV, ("A", OTHER, 0, (q,))))
    return ret(c.st, ("A", c.dty, 0, (("R", cell, ()),)))


@model((None, "boxed", "box_assume_init_into_vec_unsafe"))
def m_boxvec(c):
    b = c.args[0]
    if not (b[0] == "A" and b[3] and b[3][0][0] == "R"):
        return None
    v = c.I.read(c.st, b[3][0][1], (1, 0))
    return ret(c.st, v) if v[0] == "Q" else None


@model((None, "vec", "from_elem"))
def m_fromelem(c):
    n = c.args[1]
    et = c.dty.args[0]
    c.I.hook("alloc", c.st, n, et, c.site, "vec![x; n]")
    return ret(c.st, ("Q", et, n, ("rep", c.args[0])))


@model((None, "[T]", "to_vec"), (None, "[T]", "into_vec"), (None, "slice", "to_vec"))
def m_tovec(c):
    q = slice_q(c.I, c.st, to_slice(c.I, c.st, c.args[0]))
    c.I.hook("alloc", c.st, q[2], q[1], c.site, "to_vec")
    return ret(c.st, q)


@model(("Extend", "*", "extend"), ("Extend", None, "extend"))
def m_extend(c):
    I = c.I
    v, q = vec_at(c)
    out = []
    for s, it in into_iter(I, c.st, c.args[1]):
        if it[0] == "I" and it[1] == "vals":
            r = sub_vals(I, s, it)
            c.I.hook("extend", s, q, r, c.site, v)
            new = ("Q", q[1], s.f.norm(q[2].add(r[2])), I.mkcat(s, ((q[3], q[2]), (r[3], r[2]))))
            I.write(s, v[1], v[2], new)
            out.append((s, UNITV))
            continue
        if it[0] == "I" and it[1] == "slice":
            ty = q[1]
            r = slice_q(I, s, ("S", it[2], it[3], it[4], it[5].sub(it[4])))
            if r[1] is ty:
                new = ("Q", q[1], s.f.norm(q[2].add(r[2])), I.mkcat(s, ((q[3], q[2]), (r[3], r[2]))))
                I.write(s, v[1], v[2], new)
                out.append((s, UNITV))
                continue
        def body(s2, x):
            vq = I.read(s2, v[1], v[2])
            c.I.hook("push", s2, vq, x, c.site, v)
            I.write(s2, v[1], v[2], pushq(I, s2, vq, x))
            return [(s2, True)]
        for s2 in consume(I, s, it, body, c.site, "extend"):
            out.append((s2, UNITV))
    return out


def sub_vals(I, st, it):
    q, a, b = it[2], it[3], it[4]
    n = st.f.norm(b.sub(a))
    return ("Q", q[1], n, I.subcontent(st, q[3], a, n))


# ---- slices ------------------------------------------------------------------------------------------------
def range_of(c, r, ln):
    """[(state, start, end)] for a range argument, with the bounds obligations."""
    I, st = c.I, c.st
    if isinstance(r, Lin):
        raise Imprecise("range expected")
    a, b = ZERO, ln
    if r[0] == "A":
        n = r[1].path.split("::")[-1] if r[1].k == "adt" else ""
        if n == "Range":
            a, b = r[3]
        elif n == "RangeFrom":
            a = r[3][0]
        elif n == "RangeTo":
            b = r[3][0]
        elif n == "RangeInclusive":
            a, b = r[3][0], r[3][1].add(1)
        elif n == "RangeToInclusive":
            b = r[3][0].add(1)
        elif n == "RangeFull":
            pass
        else:
            raise Imprecise("range " + n)
    else:
        raise Imprecise("range " + str(r)[:40])
    a, b = st.f.norm(a), st.f.norm(b)
    out = []
    for s in require(c, ("cge", b.sub(a)), "panic", "slice start beyond end", "start %s end %s" % (I.show(st, a), I.show(st, b))):
        c.st = s
        for s2 in require(c, ("cge", ln.sub(b)), "panic", "slice end out of range", "end %s len %s" % (I.show(s, b), I.show(s, ln))):
            c.st = s2
            for s3 in require(c, ("cge", a), "panic", "slice start negative"):
                out.append((s3, a, b))
    c.st = st
    return out


@model(*[("Index", o, "index") for o in ("*", None)] + [("IndexMut", o, "index_mut") for o in ("*", None)])
def m_index(c):
    I = c.I
    s0 = to_slice(I, c.st, c.args[0])
    r = c.args[1]
    out = []
    if isinstance(r, Lin):
        for s in require(c, ("cge", s0[4].sub(r).sub(1)), "panic", "index out of bounds", "index %s len %s" % (I.show(c.st, r), I.show(c.st, s0[4]))):
            out.append((s, elem_ref(I, s, s0, r)))
        return out
    for s, a, b in range_of(c, r, s0[4]):
        out.append((s, ("S", s0[1], s0[2], s.f.norm(s0[3].add(a)), s.f.norm(b.sub(a)))))
    return out


def elem_ref(I, st, s, i):
    idx = st.f.norm(s[3].add(i))
    q = I.read(st, s[1], s[2])
    if q[0] == "Q":
        I.elem_axiom(st, q[1], q[3], idx)
    return ("R", s[1], s[2] + (("i", idx),))


@model((None, "[T]", "get"), (None, "[T]", "get_mut"), (None, "Vec", "get"))
def m_get(c):
    I = c.I
    s0 = to_slice(I, c.st, c.args[0])
    r = c.args[1]
    out = []
    if isinstance(r, Lin):
        for s, k in I.split(c.st, I.simp(c.st, ("cge", s0[4].sub(r).sub(1)))):
            out.append((s, ("A", c.dty, 1, (elem_ref(I, s, s0, r),)) if k else ("A", c.dty, 0, ())))
        return out
    if r[0] == "A":
        n = r[1].path.split("::")[-1]
        a, b = ZERO, s0[4]
        if n == "Range":
            a, b = r[3]
        elif n == "RangeFrom":
            a = r[3][0]
        elif n == "RangeTo":
            b = r[3][0]
        elif n == "RangeInclusive":
            a, b = r[3][0], r[3][1].add(1)
        elif n == "RangeToInclusive":
            b = r[3][0].add(1)
        elif n != "RangeFull":
            return None
        for s, k in I.split(c.st, ("cand", ("cge", b.sub(a)), ("cge", s0[4].sub(b)))):
            out.append((s, ("A", c.dty, 1, (("S", s0[1], s0[2], s.f.norm(s0[3].add(a)), s.f.norm(b.sub(a))),)) if k else ("A", c.dty, 0, ())))
        return out
    return None


@model(*[(None, o, m) for m in ("first", "last", "first_mut", "last_mut") for o in ("[T]", "Vec")])
def m_first(c):
    I = c.I
    s0 = to_slice(I, c.st, c.args[0])
    out = []
    for s, e in I.split(c.st, I.simp(c.st, ("ceq", s0[4]))):
        if e:
            out.append((s, ("A", c.dty, 0, ())))
        else:
            i = ZERO if c.method.startswith("first") else s.f.norm(s0[4].sub(1))
            out.append((s, ("A", c.dty, 1, (elem_ref(I, s, s0, i),))))
    return out


@model((None, "[T]", "split_at"), (None, "[T]", "split_at_mut"))
def m_splitat(c):
    I = c.I
    s0 = to_slice(I, c.st, c.args[0])
    at = c.args[1]
    out = []
    for s in require(c, ("cge", s0[4].sub(at)), "panic", "split_at out of range"):
        a = ("S", s0[1], s0[2], s0[3], at)
        b = ("S", s0[1], s0[2], s.f.norm(s0[3].add(at)), s.f.norm(s0[4].sub(at)))
        out.append((s, ("A", c.dty, 0, (a, b))))
    return out


@model((None, "[T]", "split_first"), (None, "[T]", "split_last"))
def m_splitfirst(c):
    I = c.I
    s0 = to_slice(I, c.st, c.args[0])
    out = []
    for s, e in I.split(c.st, I.simp(c.st, ("ceq", s0[4]))):
        if e:
            out.append((s, ("A", c.dty, 0, ())))
            continue
        n = s.f.norm(s0[4].sub(1))
        if c.method == "split_first":
            v = (elem_ref(I, s, s0, ZERO), ("S", s0[1], s0[2], s.f.norm(s0[3].add(1)), n))
        else:
            v = (elem_ref(I, s, s0, n), ("S", s0[1], s0[2], s0[3], n))
        out.append((s, ("A", c.dty, 1, (("A", c.dty.args[0], 0, v),))))
    return out


@model((None, "[T]", "fill"))
def m_fill(c):
    s0 = to_slice(c.I, c.st, c.args[0])
    slice_write(c.I, c.st, s0, ZERO, s0[4], ("rep", c.args[1]))
    return ret(c.st)


@model((None, "[T]", "copy_from_slice"), (None, "[T]", "clone_from_slice"))
def m_cfs(c):
    I = c.I
    s0 = to_slice(I, c.st, c.args[0])
    s1 = to_slice(I, c.st, c.args[1])
    out = []
    for s in require(c, ("ceq", s0[4].sub(s1[4])), "panic", "copy_from_slice: lengths differ"):
        q = slice_q(I, s, s1)
        slice_write(I, s, s0, ZERO, s0[4], q[3])
        out.append((s, UNITV))
    return out


@model((None, "[T]", "swap"))
def m_sswap(c):
    I = c.I
    s0 = to_slice(I, c.st, c.args[0])
    a, b = c.args[1], c.args[2]
    out = []
    for s in require(c, ("cand", ("cge", s0[4].sub(a).sub(1)), ("cge", s0[4].sub(b).sub(1))), "panic", "swap out of bounds"):
        q = I.read(s, s0[1], s0[2])
        ia, ib = s0[3].add(a), s0[3].add(b)
        x, y = I.elem(s, q, ia), I.elem(s, q, ib)
        q = I.set_elem(s, q, ia, y)
        q = I.set_elem(s, q, ib, x)
        I.write(s, s0[1], s0[2], q)
        out.append((s, UNITV))
    return out


@model((None, "[T]", "reverse"))
def m_reverse(c):
    I = c.I
    s0 = to_slice(I, c.st, c.args[0])
    q = slice_q(I, c.st, s0)
    if q[3][0] == "e" and not q[2].t:
        nc = ("e", tuple(reversed(q[3][1])))
    elif q[3][0] == "rep":
        nc = q[3]
    else:
        nc = permuted(I, c.st, q, ("rev", q[3], q[2]))
    slice_write(I, c.st, s0, ZERO, s0[4], nc)
    return ret(c.st)


def permuted(I, st, q, uid):
    """Unknown content that is a permutation of q: the measures' totals are those of q."""
    nc = ("u", uid)
    for m in I.measures_of(q[1]):
        t = I.qsum(st, q[1], q[3], q[2], m)
        if t is not None:
            st.f.assume_eq0(I.qsum(st, q[1], nc, q[2], m).sub(t))
    return nc


@model(*[(None, "[T]", m) for m in ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key")])
def m_sort(c):
    I = c.I
    s0 = to_slice(I, c.st, c.args[0])
    q = slice_q(I, c.st, s0)
    n = c.st.f.norm(q[2])
    if not n.t and n.c <= 4:
        r = sort_few(c, s0, q, n.c)
        if r is not None:
            return r
    slice_write(I, c.st, s0, ZERO, s0[4], permuted(I, c.st, q, ("sorted", q[3], q[2], LN.uid())))
    return ret(c.st)


def sort_few(c, s0, q, n):
    """Sorting a known few elements: insertion sort, comparison by comparison (stable)."""
    I = c.I
    if n <= 1:
        return ret(c.st)
    xs = [I.elem(c.st, q, L(i)) for i in range(n)]
    if c.method in ("sort", "sort_unstable") and not all(isinstance(x, Lin) for x in xs):
        return None
    oty = mkty("adt", path="core::cmp::Ordering")

    def cmp(st, a, b):
        """[(state, a > b)]"""
        if c.method in ("sort", "sort_unstable"):
            return I.split(st, ("cge", a.sub(b).sub(1)))
        ca, cb = ("so", LN.uid()), ("so", LN.uid())
        st.mem[ca], st.mem[cb] = a, b
        out = []
        if c.method in ("sort_by", "sort_unstable_by"):
            for s, o in I.call_value(st, c.args[1], [("R", ca, ()), ("R", cb, ())], oty, c.site):
                out += [(s2, v[2] == 2) for s2, v in I.variants(s, o)]
            return out
        for s, x in I.call_value(st, c.args[1], [("R", ca, ())], USIZE, c.site):
            for s2, y in I.call_value(s, c.args[1], [("R", cb, ())], USIZE, c.site):
                x2, y2 = deref(I, s2, x), deref(I, s2, y)
                if not (isinstance(x2, Lin) and isinstance(y2, Lin)):
                    raise Imprecise("sort key")
                out += I.split(s2, I.simp(s2, ("cge", x2.sub(y2).sub(1))))
        return out
    work = [(c.st, ())]
    for x in xs:
        nxt_ = []
        for st, done in work:
            # from the back: before every greater element
            todo = [(st, len(done))]
            while todo:
                s, k = todo.pop()
                if k == 0:
                    nxt_.append((s, (x,) + done))
                    continue
                for s2, gt in cmp(s, done[k - 1], x):
                    if gt:
                        todo.append((s2, k - 1))
                    else:
                        nxt_.append((s2, done[:k] + (x,) + done[k:]))
        work = nxt_
    out = []
    for st, done in work:
        slice_write(I, st, s0, ZERO, s0[4], ("e", done))
        out.append((st, UNITV))
    return out


@model((None, "[T]", "starts_with"), (None, "[T]", "ends_with"), (None, "[T]", "contains"))
def m_starts(c):
    I = c.I
    if c.method == "contains":
        return ret(c.st, ("cbv", ("~contains", LN.uid())))
    a = slice_q(I, c.st, to_slice(I, c.st, c.args[0]))
    b = slice_q(I, c.st, to_slice(I, c.st, c.args[1]))
    out = []
    for s, k in I.split(c.st, I.simp(c.st, ("cge", a[2].sub(b[2])))):
        if not k:
            out.append((s, False))
        else:
            off = ZERO if c.method == "starts_with" else s.f.norm(a[2].sub(b[2]))
            sub = ("Q", a[1], b[2], I.subcontent(s, a[3], off, b[2]))
            out.append((s, seq_eq(I, s, sub, b)))
    return out


@model(*[(None, "[T]", m) for m in ("binary_search_by", "binary_search", "binary_search_by_key")])
def m_bsearch(c):
    I = c.I
    s0 = to_slice(I, c.st, c.args[0])
    n = s0[4]
    out = []
    h = I.bsearch_model(c, s0) if I.bsearch_model else None
    if h is not None:
        return h
    n = c.st.f.norm(n)
    if c.method == "binary_search_by" and not n.t and n.c <= 6:
        return bsearch_few(c, s0, n.c)
    s1, s2 = c.st.copy(), c.st
    i = fresh("~bs", 0, None)
    s1.f.assume_ge0(n.sub(1).sub(i))
    if not s1.f.dead:
        if c.method == "binary_search_by":
            cell = ("bs", LN.uid())
            s1.mem[cell] = I.elem(s1, I.read(s1, s0[1], s0[2]), s1.f.norm(s0[3].add(i)))
            for s, o in I.call_value(s1, c.args[1], [("R", cell, ())], mkty("adt", path="core::cmp::Ordering"), c.site):
                for s3, v in I.variants(s, o):
                    if v[2] == 1:
                        s3.mem.pop(cell, None)
                        out.append((s3, ok(c.dty, i)))
        else:
            out.append((s1, ok(c.dty, i)))
    j = fresh("~bs", 0, None)
    s2.f.assume_ge0(n.sub(j))
    out.append((s2, err(c.dty, j)))
    return out


def bsearch_few(c, s0, n):
    """A binary search over a known few elements, probe by probe."""
    I = c.I
    q = I.read(c.st, s0[1], s0[2])
    out, work = [], [(c.st, 0, n)]
    while work:
        st, lo, hi = work.pop()
        if lo >= hi:
            out.append((st, err(c.dty, L(lo))))
            continue
        mid = (lo + hi) // 2
        cell = ("bs", LN.uid())
        st.mem[cell] = I.elem(st, q, st.f.norm(s0[3].add(mid)))
        for s, o in I.call_value(st, c.args[1], [("R", cell, ())], mkty("adt", path="core::cmp::Ordering"), c.site):
            for s2, v in I.variants(s, o):
                s2.mem.pop(cell, None)
                if v[2] == 0:
                    work.append((s2, mid + 1, hi))
                elif v[2] == 1:
                    out.append((s2, ok(c.dty, L(mid))))
                else:
                    work.append((s2, lo, mid))
    return out


@model((None, "[T]", "partition_point"))
def m_ppoint(c):
    s0 = to_slice(c.I, c.st, c.args[0])
    n = c.st.f.norm(s0[4])
    if not n.t and n.c <= 6:
        I = c.I
        q = I.read(c.st, s0[1], s0[2])
        out, work = [], [(c.st, 0, n.c)]
        while work:
            st, lo, hi = work.pop()
            if lo >= hi:
                out.append((st, L(lo)))
                continue
            mid = (lo + hi) // 2
            cell = ("bs", LN.uid())
            st.mem[cell] = I.elem(st, q, st.f.norm(s0[3].add(mid)))
            for s, b in I.call_value(st, c.args[1], [("R", cell, ())], BOOL, c.site):
                for s2, k in I.split(s, b):
                    s2.mem.pop(cell, None)
                    work.append((s2, mid + 1, hi) if k else (s2, lo, mid))
        return out
    i = fresh("~pp", 0, None)
    c.st.f.assume_ge0(s0[4].sub(i))
    return ret(c.st, i)


# ---- ranges ---------------------------------------------------------------------------------------------------
@model((None, "RangeInclusive", "new"))
def m_rinew(c):
    return ret(c.st, ("A", c.dty, 0, (c.args[0], c.args[1], False)))


@model((None, "RangeInclusive", "start"), (None, "RangeInclusive", "end"))
def m_riend(c):
    v = c.args[0]
    i = 0 if c.method == "start" else 1
    return ret(c.st, ("R", v[1], v[2] + (i,)))


@model((None, "RangeInclusive", "into_inner"))
def m_riinner(c):
    v = c.args[0]
    return ret(c.st, ("A", c.dty, 0, (v[3][0], v[3][1])))


@model((None, "Range", "contains"), (None, "RangeInclusive", "contains"), (None, "RangeFrom", "contains"), (None, "RangeTo", "contains"),
       (None, "RangeToInclusive", "contains"), ("RangeBounds", "*", "contains"))
def m_contains(c):
    I = c.I
    r = deref(I, c.st, c.args[0])
    x = lin_of(I, c.st, c.args[1])
    n = r[1].path.split("::")[-1]
    if n == "Range":
        k = ("cand", ("cge", x.sub(r[3][0])), ("cge", r[3][1].sub(x).sub(1)))
    elif n == "RangeInclusive":
        k = ("cand", ("cge", x.sub(r[3][0])), ("cge", r[3][1].sub(x)))
    elif n == "RangeFrom":
        k = ("cge", x.sub(r[3][0]))
    elif n == "RangeTo":
        k = ("cge", r[3][0].sub(x).sub(1))
    elif n == "RangeToInclusive":
        k = ("cge", r[3][0].sub(x))
    else:
        return None
    return ret(c.st, k)


@model((None, "Range", "is_empty"))
def m_rempty(c):
    r = deref(c.I, c.st, c.args[0])
    return ret(c.st, ("cge", r[3][0].sub(r[3][1])))


# ---- iterators ---------------------------------------------------------------------------------------------------
def into_iter(I, st, v):
    """[(state, iterator value)]"""
    if v[0] == "I":
        return [(st, v)]
    if v[0] == "S":
        return [(st, ("I", "slice", v[1], v[2], v[3], st.f.norm(v[3].add(v[4]))))]
    if v[0] == "Q":
        return [(st, ("I", "vals", v, ZERO, v[2]))]
    if v[0] == "R":
        x = I.read(st, v[1], v[2])
        if isinstance(x, tuple):
            if x[0] == "Q":
                return [(st, ("I", "slice", v[1], v[2], ZERO, x[2]))]
            if x[0] in ("S", "R") and x[0] == "S":
                return into_iter(I, st, x)
            if x[0] == "A" and x[1].k == "adt" and x[1].path == OPTION:
                out = []
                if x[2] == 1:
                    return [(st, ("I", "once", ("R", v[1], v[2] + (("v", 1), 0))))]
                return [(st, ("I", "empty"))]
            if x[0] in ("I", "A", "O"):
                return [(st, v)]          # &mut iterator
    if v[0] == "A":
        if v[1].k == "adt" and v[1].path == OPTION:
            return [(st, ("I", "once", v[3][0]) if v[2] == 1 else ("I", "empty"))]
        return [(st, v)]
    if v[0] == "O":
        if v[2].k == "adt" and v[2].path == OPTION:
            out = []
            for s, x in I.variants(st, v):
                out += into_iter(I, s, x)
            return out
        return [(st, v)]
    raise Imprecise("into_iter of " + str(v)[:40])


@model(("IntoIterator", "*", "into_iter"), ("IntoIterator", None, "into_iter"))
def m_intoiter(c):
    return into_iter(c.I, c.st, c.args[0])


@model((None, "[T]", "iter"), (None, "[T]", "iter_mut"), (None, "Vec", "iter"), (None, "Vec", "iter_mut"))
def m_iter(c):
    s = to_slice(c.I, c.st, c.args[0])
    return ret(c.st, ("I", "slice", s[1], s[2], s[3], c.st.f.norm(s[3].add(s[4]))))


@model(*[(None, "[T]", m) for m in ("windows", "chunks", "chunks_exact", "chunks_mut")])
def m_windows(c):
    s = to_slice(c.I, c.st, c.args[0])
    n = c.args[1]
    out = []
    for st in require(c, ("cge", n.sub(1)), "panic", "%s: size zero" % c.method):
        out.append((st, ("I", c.method.replace("_mut", ""), s, ZERO, n)))
    return out


ITEM_UNKNOWN = None


def nxt(I, st, it, site=""):
    """Advances an iterator: [(state, iterator', item or None)]; item None = exhausted."""
    if it[0] == "R":
        inner = I.read(st, it[1], it[2])
        if isinstance(inner, tuple) and inner[0] in ("A", "O") and not is_range(inner):
            return [(s, it, x) for s, x in custom_next(I, st, it, inner, site)]
        out = []
        for s, i2, x in nxt(I, st, inner, site):
            I.write(s, it[1], it[2], i2)
            out.append((s, it, x))
        return out
    f = st.f
    if it[0] == "A" and is_range(it):
        n = it[1].path.split("::")[-1]
        a = it[3][0]
        if n == "Range":
            b = it[3][1]
            out = []
            for s, k in I.split(st, I.simp(st, ("cge", b.sub(a).sub(1)))):
                if k:
                    out.append((s, ("A", it[1], 0, (s.f.norm(a.add(1)), b)), a))
                else:
                    out.append((s, it, None))
            return out
        if n == "RangeInclusive":
            b, ex = it[3][1], it[3][2]
            out = []
            for s, e in I.split(st, ex):
                if e:
                    out.append((s, it, None))
                    continue
                for s2, k in I.split(s, I.simp(s, ("cge", b.sub(a)))):
                    if not k:
                        out.append((s2, it, None))
                        continue
                    for s3, last in I.split(s2, I.simp(s2, ("ceq", b.sub(a)))):
                        if last:
                            out.append((s3, ("A", it[1], 0, (a, b, True)), a))
                        else:
                            out.append((s3, ("A", it[1], 0, (s3.f.norm(a.add(1)), b, False)), a))
            return out
        if n == "RangeFrom":
            return [(st, ("A", it[1], 0, (f.norm(a.add(1)),)), a)]
    if it[0] in ("A", "O"):
        c = I.newcell()
        st.mem[c] = it
        out = []
        for s, x in custom_next(I, st, ("R", c, ()), it, site):
            out.append((s, s.mem[c], x))
        return out
    k = it[1]
    if k == "slice":
        cell, path, a, b = it[2:]
        out = []
        for s, more in I.split(st, I.simp(st, ("cge", b.sub(a).sub(1)))):
            if not more:
                out.append((s, it, None))
            else:
                q = I.read(s, cell, path)
                if q[0] == "Q":
                    I.elem_axiom(s, q[1], q[3], a)
                out.append((s, ("I", "slice", cell, path, s.f.norm(a.add(1)), b), ("R", cell, path + (("i", s.f.norm(a)),))))
        return out
    if k == "vals":
        q, a, b = it[2:]
        out = []
        for s, more in I.split(st, I.simp(st, ("cge", b.sub(a).sub(1)))):
            if not more:
                out.append((s, it, None))
            else:
                I.elem_axiom(s, q[1], q[3], a)
                out.append((s, ("I", "vals", q, s.f.norm(a.add(1)), b), I.elem(s, q, a)))
        return out
    if k == "empty":
        return [(st, it, None)]
    if k == "once":
        return [(st, ("I", "empty"), it[2])]
    if k == "repeat_with":
        return [(s, it, x) for s, x in I.call_value(st, it[2], [], it[3], site)]
    if k == "repeat":
        return [(st, it, it[2])]
    if k == "map":
        out = []
        for s, i2, x in nxt(I, st, it[2], site):
            if x is None:
                out.append((s, ("I", "map", i2, it[3], it[4]), None))
            else:
                for s2, y in I.call_value(s, it[3], [x], it[4], site):
                    out.append((s2, ("I", "map", i2, it[3], it[4]), y))
        return out
    if k == "enumerate":
        return [(s, ("I", "enumerate", i2, s.f.norm(it[3].add(1)) if x is not None else it[3]),
                 None if x is None else ("A", mkty("tuple", args=(USIZE, OTHER)), 0, (it[3], x))) for s, i2, x in nxt(I, st, it[2], site)]
    if k == "zip":
        out = []
        for s, a2, x in nxt(I, st, it[2], site):
            if x is None:
                out.append((s, ("I", "zip", a2, it[3]), None))
                continue
            for s2, b2, y in nxt(I, s, it[3], site):
                out.append((s2, ("I", "zip", a2, b2), None if y is None else ("A", mkty("tuple", args=(OTHER, OTHER)), 0, (x, y))))
        return out
    if k == "take":
        n = it[3]
        out = []
        for s, z in I.split(st, I.simp(st, ("ceq", n))):
            if z:
                out.append((s, it, None))
            else:
                for s2, i2, x in nxt(I, s, it[2], site):
                    out.append((s2, ("I", "take", i2, s2.f.norm(n.sub(1))), x))
        return out
    if k == "take_while":
        if it[4] is True:
            return [(st, it, None)]
        out = []
        for s, i2, x in nxt(I, st, it[2], site):
            if x is None:
                out.append((s, ("I", "take_while", i2, it[3], it[4]), None))
                continue
            cc = I.newcell()
            s.mem[cc] = x
            for s2, b in I.call_value(s, it[3], [("R", cc, ())], BOOL, site):
                for s3, k2 in I.split(s2, b):
                    out.append((s3, ("I", "take_while", i2, it[3], not k2), x if k2 else None))
        return out
    if k == "chain":
        a, b = it[2], it[3]
        if a is None:
            return [(s, ("I", "chain", None, b2), x) for s, b2, x in nxt(I, st, b, site)]
        out = []
        for s, a2, x in nxt(I, st, a, site):
            if x is not None:
                out.append((s, ("I", "chain", a2, b), x))
            else:
                for s2, b2, y in nxt(I, s, b, site):
                    out.append((s2, ("I", "chain", None, b2), y))
        return out
    if k == "rev":
        return [(s, ("I", "rev", i2), x) for s, i2, x in nxt_back(I, st, it[2], site)]
    if k in ("cloned", "copied"):
        return [(s, ("I", k, i2), None if x is None else deref1(I, s, x)) for s, i2, x in nxt(I, st, it[2], site)]
    if k == "by_ref":
        return nxt(I, st, it[2], site)
    if k == "peekable":
        if it[3] is not None:
            p = it[3]
            return [(st, ("I", "peekable", it[2], None), p[0])]
        return [(s, ("I", "peekable", i2, None), x) for s, i2, x in nxt(I, st, it[2], site)]
    if k == "skip":
        n = it[3]
        if not n.t and n.c <= 8:
            cur = [(st, it[2])]
            for _ in range(n.c):
                c2 = []
                for s, i2 in cur:
                    for s2, i3, x in nxt(I, s, i2, site):
                        c2.append((s2, i3))
                cur = c2
            out = []
            for s, i2 in cur:
                for s2, i3, x in nxt(I, s, i2, site):
                    out.append((s2, ("I", "skip", i3, ZERO), x))
            return out
        sk = skip_n(I, st, it[2], n)
        if sk is not None:
            out = []
            for s, i2 in sk:
                for s2, i3, x in nxt(I, s, i2, site):
                    out.append((s2, ("I", "skip", i3, ZERO), x))
            return out
    if k == "step_by":
        inner, n, first = it[2], it[3], it[4]
        if first:
            return [(s, ("I", "step_by", i2, n, False), x) for s, i2, x in nxt(I, st, inner, site)]
        sk = skip_n(I, st, inner, st.f.norm(n.sub(1)))
        if sk is not None:
            out = []
            for s, i2 in sk:
                for s2, i3, x in nxt(I, s, i2, site):
                    out.append((s2, ("I", "step_by", i3, n, False), x))
            return out
    if k in ("filter", "filter_map", "skip_while"):
        return filter_next(I, st, it, site)
    if k == "chunks" or k == "chunks_exact":
        s0, a, n = it[2], it[3], it[4]
        out = []
        need = n if k == "chunks_exact" else ONE
        for s, more in I.split(st, I.simp(st, ("cge", s0[4].sub(a).sub(need)))):
            if not more:
                out.append((s, it, None))
            else:
                for s2, m in pick(I, s, n, s.f.norm(s0[4].sub(a)), True):
                    out.append((s2, ("I", k, s0, s2.f.norm(a.add(m)), n), ("S", s0[1], s0[2], s2.f.norm(s0[3].add(a)), m)))
        return out
    if k == "windows":
        s0, a, n = it[2], it[3], it[4]
        out = []
        for s, more in I.split(st, I.simp(st, ("cge", s0[4].sub(a).sub(n)))):
            if not more:
                out.append((s, it, None))
            else:
                out.append((s, ("I", k, s0, s.f.norm(a.add(1)), n), ("S", s0[1], s0[2], s.f.norm(s0[3].add(a)), n)))
        return out
    raise Imprecise("next of iterator " + str(k))


def is_range(v):
    return isinstance(v, tuple) and v[0] == "A" and v[1].k == "adt" and v[1].path.startswith("core::ops::range::")


def skip_n(I, st, it, n):
    """Advances by n without evaluating items: [(state, it')] or None."""
    if it[0] == "A" and is_range(it):
        nm = it[1].path.split("::")[-1]
        a = it[3][0]
        if nm == "Range":
            out = []
            b = it[3][1]
            for s, k in I.split(st, I.simp(st, ("cge", b.sub(a).sub(n)))):
                out.append((s, ("A", it[1], 0, (s.f.norm(a.add(n)) if k else b, b))))
            return out
        if nm == "RangeInclusive" and it[3][2] is False:
            out = []
            b = it[3][1]
            for s, k in I.split(st, I.simp(st, ("cge", b.sub(a).sub(n)))):
                out.append((s, ("A", it[1], 0, (s.f.norm(a.add(n)), b, False)) if k else ("A", it[1], 0, (b, b, True))))
            return out
        if nm == "RangeInclusive" and it[3][2] is True:
            return [(st, it)]
        return None
    if it[0] == "I" and it[1] in ("slice", "vals"):
        a, b = it[-2], it[-1]
        out = []
        for s, k in I.split(st, I.simp(st, ("cge", b.sub(a).sub(n)))):
            out.append((s, it[:-2] + (s.f.norm(a.add(n)) if k else b, b)))
        return out
    if it[0] == "I" and it[1] in ("map",):
        return None
    return None


def nxt_back(I, st, it, site=""):
    if it[0] == "R":
        inner = I.read(st, it[1], it[2])
        out = []
        for s, i2, x in nxt_back(I, st, inner, site):
            I.write(s, it[1], it[2], i2)
            out.append((s, it, x))
        return out
    if it[0] == "A" and is_range(it):
        n = it[1].path.split("::")[-1]
        if n == "Range":
            a, b = it[3]
            out = []
            for s, k in I.split(st, I.simp(st, ("cge", b.sub(a).sub(1)))):
                if k:
                    x = s.f.norm(b.sub(1))
                    out.append((s, ("A", it[1], 0, (a, x)), x))
                else:
                    out.append((s, it, None))
            return out
        if n == "RangeInclusive":
            a, b, ex = it[3]
            out = []
            for s, e in I.split(st, ex):
                if e:
                    out.append((s, it, None))
                    continue
                for s2, k in I.split(s, I.simp(s, ("cge", b.sub(a)))):
                    if not k:
                        out.append((s2, it, None))
                        continue
                    for s3, last in I.split(s2, I.simp(s2, ("ceq", b.sub(a)))):
                        if last:
                            out.append((s3, ("A", it[1], 0, (a, b, True)), b))
                        else:
                            out.append((s3, ("A", it[1], 0, (a, s3.f.norm(b.sub(1)), False)), b))
            return out
    k = it[1]
    if k in ("slice", "vals"):
        a, b = it[-2], it[-1]
        out = []
        for s, more in I.split(st, I.simp(st, ("cge", b.sub(a).sub(1)))):
            if not more:
                out.append((s, it, None))
                continue
            e = s.f.norm(b.sub(1))
            if k == "slice":
                q = I.read(s, it[2], it[3])
                if q[0] == "Q":
                    I.elem_axiom(s, q[1], q[3], e)
                x = ("R", it[2], it[3] + (("i", e),))
            else:
                q = it[2]
                I.elem_axiom(s, q[1], q[3], e)
                x = I.elem(s, q, e)
            out.append((s, it[:-1] + (e,), x))
        return out
    if k == "empty":
        return [(st, it, None)]
    if k == "once":
        return [(st, ("I", "empty"), it[2])]
    if k == "rev":
        return [(s, ("I", "rev", i2), x) for s, i2, x in nxt(I, st, it[2], site)]
    if k == "map":
        out = []
        for s, i2, x in nxt_back(I, st, it[2], site):
            if x is None:
                out.append((s, ("I", "map", i2, it[3], it[4]), None))
            else:
                for s2, y in I.call_value(s, it[3], [x], it[4], site):
                    out.append((s2, ("I", "map", i2, it[3], it[4]), y))
        return out
    if k in ("cloned", "copied"):
        return [(s, ("I", k, i2), None if x is None else deref1(I, s, x)) for s, i2, x in nxt_back(I, st, it[2], site)]
    if k == "enumerate":
        out = []
        n = iter_len(I, st, it[2])
        if n is None:
            raise Imprecise("next_back of enumerate")
        for s, i2, x in nxt_back(I, st, it[2], site):
            out.append((s, ("I", "enumerate", i2, it[3]), None if x is None else ("A", mkty("tuple", args=(USIZE, OTHER)), 0, (s.f.norm(it[3].add(n).sub(1)), x))))
        return out
    if k == "filter":
        return filter_next(I, st, it, site, back=True)
    raise Imprecise("next_back of iterator " + str(k))


def iter_len(I, st, it):
    if it[0] == "A" and is_range(it) and it[1].path.endswith("::Range"):
        a, b = it[3]
        if st.f.prove_ge0(b.sub(a)):
            return st.f.norm(b.sub(a))
        return None
    if it[0] == "I":
        if it[1] in ("slice", "vals"):
            return st.f.norm(it[-1].sub(it[-2]))
        if it[1] in ("map", "enumerate", "rev", "cloned", "copied"):
            return iter_len(I, st, it[2])
        if it[1] == "take" and isinstance(it[3], Lin):
            n = iter_len(I, st, it[2])
            if it[2][0] == "I" and it[2][1] in ("repeat", "repeat_with"):
                return st.f.norm(it[3])
            if n is not None and st.f.prove_ge0(n.sub(it[3])):
                return st.f.norm(it[3])
            return n if n is not None and st.f.prove_ge0(it[3].sub(n)) else None
        if it[1] == "zip":
            a, b = iter_len(I, st, it[2]), iter_len(I, st, it[3])
            if a is None or b is None:
                return None
            return a if st.f.prove_ge0(b.sub(a)) else b if st.f.prove_ge0(a.sub(b)) else None
        if it[1] == "empty":
            return ZERO
        if it[1] == "once":
            return ONE
    return None


def filter_next(I, st, it, site, back=False):
    """Loop until an element passes."""
    kind = it[1]
    cell = I.newcell()
    st.mem[cell] = it[2]
    fcell = I.newcell()
    st.mem[fcell] = it[3]
    out = []
    adv = nxt_back if back else nxt
    if kind == "skip_while" and it[4] is True:
        return [(s, ("I", kind, i2, it[3], True), x) for s, i2, x in adv(I, st, it[2], site)]

    def step(s):
        conts, exits = [], []
        for s2, i2, x in adv(I, s, s.mem[cell], site):
            s2.mem[cell] = i2
            if x is None:
                exits.append((("done", None), s2))
                continue
            if kind == "filter_map":
                for s3, r in I.call_value(s2, it[3], [x], opt_ty(it[4]), site):
                    for s4, o in I.variants(s3, r):
                        if o[2] == 1:
                            exits.append((("item", o[3][0]), s4))
                        else:
                            conts.append(s4)
                continue
            xc = ("fx", cell)
            s2.mem[xc] = x
            for s3, b in I.call_value(s2, it[3], [("R", xc, ())], BOOL, site):
                for s4, k in I.split(s3, b):
                    s4.mem.pop(xc, None)
                    if k == (kind == "filter"):
                        exits.append((("item", x), s4))
                    else:
                        conts.append(s4)
        return conts, exits
    for (what, x), s in I.fix(("filter", site), st, step):
        i2 = s.mem.pop(cell, None)
        s.mem.pop(fcell, None)
        rest = it[3:]
        if kind == "skip_while":
            rest = (it[3], True)
        out.append((s, ("I", kind, i2) + rest, x))
    return out


def custom_next(I, st, ref, v, site):
    """next() of a workspace iterator type: [(state, item or None)]."""
    t = I.typeof(v)
    r = I.p.resolve_impl("core::iter::traits::iterator::Iterator::next", t)
    if r is None:
        raise Imprecise("iterator type " + str(t))
    fn = I.p.fns.get(r[0])
    if fn is None:
        raise Imprecise("iterator type " + str(t))
    out = []
    dty = I.p.subst(fn.locals[0], r[1])
    for s, o in I.call_path(st, fn, r[0], [ref], dict(r[1]), dty, site, []):
        for s2, x in I.variants(s, o):
            out.append((s2, x[3][0] if x[2] == 1 else None))
    return out


ADAPT = ("map", "enumerate", "zip", "take", "take_while", "chain", "rev", "cloned", "copied", "by_ref", "peekable", "skip", "step_by", "filter",
         "filter_map", "skip_while", "inspect", "flat_map", "fuse", "flatten", "scan", "map_while")


def fn_ret_ty(c, i, default=None):
    return default if default is not None else OTHER


def closure_ret(I, fv):
    if isinstance(fv, tuple) and fv[0] == "A" and fv[1].k == "closure":
        fn = I.p.fns.get(fv[1].path)
        if fn is not None:
            return I.p.subst(fn.locals[0], I.closure_env.get(fv[1].path, {}))
    if isinstance(fv, tuple) and fv[0] == "F":
        fn = I.p.fns.get(fv[1])
        if fn is not None:
            return I.p.subst(fn.locals[0], dict(zip(fn.generics, fv[2])))
    if isinstance(fv, tuple) and fv[0] == "R":
        return None
    return None


def iter_method(c):
    I, m, A = c.I, c.method, c.args
    if m in ("next", "next_back"):
        out = []
        g = nxt if m == "next" else nxt_back
        v = A[0]
        if v[0] != "R":
            return None
        t = c.dty.args[0] if c.dty.k == "adt" and c.dty.args else OTHER
        cur = I.read(c.st, v[1], v[2])
        if isinstance(cur, tuple) and cur[0] == "O" and c.I.p.resolve_impl("core::iter::traits::iterator::Iterator::next", cur[2]) is None:
            raise Imprecise("next of " + str(cur[2]))
        for s, _i, x in g(I, c.st, v, c.site):
            out.append((s, ("A", c.dty, 0, ()) if x is None else ("A", c.dty, 1, (x,))))
        return out
    if m in ADAPT:
        out = []
        it = A[0]
        its = [(c.st, it)] if it[0] != "R" or m == "by_ref" else [(c.st, it)]
        if m == "map":
            return ret(c.st, ("I", "map", it, A[1], closure_ret(I, A[1]) or OTHER))
        if m == "filter_map":
            ct = closure_ret(I, A[1])
            return ret(c.st, ("I", "filter_map", it, A[1], ct.args[0] if ct is not None else OTHER))
        if m == "enumerate":
            return ret(c.st, ("I", "enumerate", it, ZERO))
        if m in ("rev", "cloned", "copied"):
            return ret(c.st, ("I", m, it))
        if m == "fuse":
            return ret(c.st, it)
        if m == "by_ref":
            return ret(c.st, it)
        if m in ("zip", "chain"):
            return [(s, ("I", m, it, j)) for s, j in into_iter(I, c.st, A[1])]
        if m in ("take", "skip"):
            return ret(c.st, ("I", m, it, A[1]))
        if m == "step_by":
            return [(s, ("I", "step_by", it, A[1], True)) for s in require(c, ("cge", A[1].sub(1)), "panic", "step_by zero")]
        if m == "take_while":
            return ret(c.st, ("I", "take_while", it, A[1], False))
        if m == "skip_while":
            return ret(c.st, ("I", "skip_while", it, A[1], False))
        if m == "filter":
            return ret(c.st, ("I", "filter", it, A[1]))
        if m == "peekable":
            return ret(c.st, ("I", "peekable", it, None))
        return None
    return consumer(c)


def consume(I, st, it, body, site, name, acc=None, counted=True):
    """Runs an iterator to its end; body(state, item) -> [(state, go on?)]. Returns the final states."""
    if it[0] == "R":
        cell, path = it[1], it[2]
        own = None
    else:
        own = I.newcell()
        st.mem[own] = it
        cell, path = own, ()

    def step(s):
        conts, exits = [], []
        for s2, _r, x in nxt(I, s, ("R", cell, path), site):
            if x is None:
                exits.append(("ret", s2))
                continue
            for s3, go in body(s2, x):
                if go is True:
                    conts.append(s3)
                else:
                    exits.append((go if go is not False else "ret", s3))
        return conts, exits
    res = []
    few = iter_len(I, st, I.read(st, cell, path))
    few = few is not None and not few.t and few.c <= 12
    for tag, s in I.fix((name, site), st, step, few):
        if own is not None:
            s.mem.pop(own, None)
        if tag == "ret":
            res.append(s)
        else:
            s.mem[("early", site)] = tag
            res.append(s)
    return res


def consumer(c):
    I, m, A = c.I, c.method, c.args
    it = A[0]
    if m == "collect" or m == "unzip":
        return collect(c, it)
    if m in ("count", "sum", "product", "fold", "max", "min", "last"):
        acc = I.newcell()
        if m == "fold":
            c.st.mem[acc] = A[1]
        elif m in ("count", "sum"):
            c.st.mem[acc] = ZERO
            if m == "sum" and not c.dty.is_int():
                return None
        elif m in ("max", "min", "last"):
            c.st.mem[acc] = ("A", c.dty, 0, ())
        else:
            return None
        I.celltype[acc] = c.dty

        def body(s, x):
            a = s.mem[acc]
            if m == "fold":
                r = []
                for s2, y in I.call_value(s, A[2], [a, x], c.dty, c.site):
                    s2.mem[acc] = y
                    r.append((s2, True))
                return r
            if m == "count":
                s.mem[acc] = s.f.norm(a.add(1))
                return [(s, True)]
            if m == "sum":
                n = lin_of(I, s, x)
                t = c.dty
                r = s.f.norm(a.add(n))
                c2 = Ctx()
                c2.I, c2.st, c2.site = I, s, c.site
                out = []
                for s2 in require(c2, I.in_range(s, r, t), "panic", "sum overflows", "%s + %s" % (I.show(s, a), I.show(s, n))):
                    s2.mem[acc] = r
                    out.append((s2, True))
                return out
            if m == "last":
                s.mem[acc] = ("A", c.dty, 1, (x,))
                return [(s, True)]
            if m in ("max", "min"):
                xv = x
                if a[2] == 0:
                    s.mem[acc] = ("A", c.dty, 1, (x,))
                    return [(s, True)]
                p, q = deref(I, s, a[3][0]), deref(I, s, x)
                if not (isinstance(p, Lin) and isinstance(q, Lin)):
                    raise Imprecise("max of non-numbers")
                out = []
                cond = ("cge", q.sub(p)) if m == "max" else ("cge", p.sub(q).sub(1))
                for s2, k in I.split(s, cond):
                    if k:
                        s2.mem[acc] = ("A", c.dty, 1, (x,))
                    out.append((s2, True))
                return out
        out = []
        for s in consume(I, c.st, it, body, c.site, m):
            out.append((s, s.mem.pop(acc)))
        return out
    if m == "for_each":
        def body(s, x):
            return [(s2, True) for s2, _ in I.call_value(s, A[1], [x], UNIT, c.site)]
        return [(s, UNITV) for s in consume(I, c.st, it, body, c.site, m)]
    if m in ("all", "any"):
        res = I.newcell()
        c.st.mem[res] = m == "all"

        def body(s, x):
            out = []
            for s2, b in I.call_value(s, A[1], [x], BOOL, c.site):
                for s3, k in I.split(s2, b):
                    if k == (m == "all"):
                        out.append((s3, True))
                    else:
                        s3.mem[res] = m != "all"
                        out.append((s3, False))
            return out
        return [(s, s.mem.pop(res)) for s in consume(I, c.st, it, body, c.site, m)]
    if m in ("find", "position", "find_map", "nth"):
        if m == "nth":
            out = []
            sk = skip_n(I, c.st, deref(I, c.st, it), A[1])
            if sk is None:
                return None
            for s, i2 in sk:
                I.write(s, it[1], it[2], i2)
                for s2, _i, x in nxt(I, s, it, c.site):
                    out.append((s2, ("A", c.dty, 0, ()) if x is None else ("A", c.dty, 1, (x,))))
            return out
        res, cnt = I.newcell(), I.newcell()
        c.st.mem[res] = ("A", c.dty, 0, ())
        c.st.mem[cnt] = ZERO

        def body(s, x):
            out = []
            arg = x
            if m == "find":
                cc = ("fx", res)
                s.mem[cc] = x
                arg = ("R", cc, ())
            for s2, b in I.call_value(s, A[1], [arg], BOOL if m != "find_map" else c.dty, c.site):
                if m == "find_map":
                    for s3, o in I.variants(s2, b):
                        if o[2] == 1:
                            s3.mem[res] = o
                            out.append((s3, False))
                        else:
                            out.append((s3, True))
                    continue
                for s3, k in I.split(s2, b):
                    n = s3.mem[cnt]
                    s3.mem.pop(("fx", res), None)
                    if k:
                        s3.mem[res] = ("A", c.dty, 1, (x if m == "find" else n,))
                        out.append((s3, False))
                    else:
                        s3.mem[cnt] = s3.f.norm(n.add(1))
                        out.append((s3, True))
            return out
        out = []
        for s in consume(I, c.st, it, body, c.site, m):
            s.mem.pop(cnt, None)
            out.append((s, s.mem.pop(res)))
        return out
    if m == "peek":
        v = it
        cur = I.read(c.st, v[1], v[2])
        if cur[0] != "I" or cur[1] != "peekable":
            return None
        out = []
        if cur[3] is None:
            l = [(s, i2, x) for s, i2, x in nxt(I, c.st, cur[2], c.site)]
        else:
            l = [(c.st, cur[2], cur[3][0])]
        for s, i2, x in l:
            I.write(s, v[1], v[2], ("I", "peekable", i2, (x,)))
            if x is None:
                out.append((s, ("A", c.dty, 0, ())))
            else:
                cc = I.newcell()
                s.mem[cc] = x
                out.append((s, ("A", c.dty, 1, (("R", cc, ()),))))
        return out
    if m in ("len",):
        n = iter_len(I, c.st, deref(I, c.st, it))
        if n is not None:
            return ret(c.st, n)
    if m == "size_hint":
        return ret(c.st, I.opaque_val(("~hint", LN.uid()), c.dty))
    if m in ("eq", "ne"):
        return ret(c.st, ("cbv", ("~itereq", LN.uid())))
    return None


def collect(c, it):
    I = c.I
    t = c.dty
    if t.k == "adt" and t.path == RESULT and t.args[0].k == "adt" and t.args[0].path == VEC:
        return collect_result(c, it)
    if not (t.k == "adt" and t.path in (VEC,)):
        return None
    et = t.args[0]
    if it[0] == "I" and it[1] == "vals":
        return ret(c.st, sub_vals(I, c.st, it))
    acc = I.newcell()
    c.st.mem[acc] = ("Q", et, ZERO, EMPTY)

    def body(s, x):
        q = s.mem[acc]
        I.hook("push", s, q, x, c.site, ("R", acc, ()))
        s.mem[acc] = pushq(I, s, q, x)
        return [(s, True)]
    out = []
    n = iter_len(I, c.st, it)
    if n is not None:
        I.hook("alloc", c.st, n, et, c.site, "collect")
    for s in consume(I, c.st, it, body, c.site, "collect"):
        out.append((s, s.mem.pop(acc)))
    return out


def collect_result(c, it):
    I = c.I
    t = c.dty
    et = t.args[0].args[0]
    acc, e = I.newcell(), I.newcell()
    c.st.mem[acc] = ("Q", et, ZERO, EMPTY)
    c.st.mem[e] = False

    def body(s, x):
        out = []
        for s2, r in I.variants(s, x):
            if r[2] == 0:
                q = s2.mem[acc]
                I.hook("push", s2, q, r[3][0], c.site, ("R", acc, ()))
                s2.mem[acc] = pushq(I, s2, q, r[3][0])
                out.append((s2, True))
            else:
                s2.mem[e] = err(t, r[3][0])
                out.append((s2, False))
        return out
    out = []
    for s in consume(I, c.st, it, body, c.site, "collect"):
        q, ev = s.mem.pop(acc), s.mem.pop(e)
        out.append((s, ok(t, q) if ev is False else ev))
    return out


TABLE[("FromIterator", "*", "from_iter")] = lambda c: (lambda r: [x for s, it in r for x in (collect_at(c, s, it) or [])])(into_iter(c.I, c.st, c.args[0]))


def collect_at(c, s, it):
    c.st = s
    return collect(c, it)


@model((None, "Peekable", "peek"))
def m_peek(c):
    return consumer(c)


@model((None, "once", "once"))
def m_once(c):
    return ret(c.st, ("I", "once", c.args[0]))


@model((None, "repeat_with", "repeat_with"))
def m_rw(c):
    return ret(c.st, ("I", "repeat_with", c.args[0], closure_ret(c.I, c.args[0]) or OTHER))


@model((None, "repeat", "repeat"))
def m_repeat(c):
    return ret(c.st, ("I", "repeat", c.args[0]))


@model((None, "repeat_n", "repeat_n"))
def m_repeatn(c):
    return ret(c.st, ("I", "take", ("I", "repeat", c.args[0]), c.args[1]))


@model((None, "empty", "empty"))
def m_empty(c):
    return ret(c.st, ("I", "empty"))


@model(("FnMut", None, "call_mut"), ("FnOnce", None, "call_once"), ("Fn", None, "call"))
def m_callmut(c):
    fv, a = c.args
    if not (isinstance(a, tuple) and a[0] == "A"):
        raise Imprecise("call arguments")
    return c.I.call_value(c.st, fv, list(a[3]), c.dty, c.site)


# ---- byte streams --------------------------------------------------------------------------------------------------
# A stream is an opaque object (type parameter or external type) with an identity; its position lives in the
# cell ('pos', sid); what it yields is content ('u',('stream',sid)); what was written to it is in ('out', sid).
def stream_of(I, st, v, depth=0):
    """('mem', cell, path) | ('sid', sid, ty) | ('cursor', cell, path) for the object behind a (reference to a) stream."""
    if depth > 12:
        raise Imprecise("stream nesting")
    if isinstance(v, tuple):
        if v[0] == "R":
            x = I.read(st, v[1], v[2])
            if isinstance(x, tuple):
                if x[0] == "Q":
                    return ("vec", v[1], v[2])
                if x[0] == "S":
                    return ("bytes", v[1], v[2])
                if x[0] == "R":
                    return stream_of(I, st, x, depth + 1)
                if x[0] == "O":
                    return ("sid", x[1], x[2])
                if x[0] == "I" and x[1] == "wrap":
                    return stream_in(I, st, x, ("R", v[1], v[2]), depth + 1)
                if x[0] == "A":
                    return ("struct", v, x)
        if v[0] == "O":
            return ("sid", v[1], v[2])
        if v[0] == "I" and v[1] == "wrap":
            return stream_in(I, st, v, None, depth + 1)
    raise Imprecise("stream " + str(v)[:60])


def stream_in(I, st, w, ref, depth):
    kind, inner = w[2], w[3]
    if kind == "cursor":
        return ("cursor", w, ref)
    if kind == "dec":
        return ("sid", w[4], None)
    # transparent
    if inner[0] in ("R",):
        return stream_of(I, st, inner, depth)
    if inner[0] == "O":
        return ("sid", inner[1], inner[2])
    if inner[0] == "I":
        return stream_in(I, st, inner, None if ref is None else ("R", ref[1], ref[2] + ((("w", 3)),)), depth)
    if inner[0] == "Q":
        raise Imprecise("owned buffer behind a wrapper")
    raise Imprecise("stream wrapper " + kind)


def getpos(I, st, sid):
    v = st.mem.get(("pos", sid))
    if v is None:
        v = I.load(st, ("pos", sid))
    return v


def setpos(st, sid, v):
    st.mem[("pos", sid)] = st.f.norm(v)


def emit(I, st, ev):
    st.trace = (st.trace, ev)
    I.hook("event", st, ev)


def failed(I, st, what, sid):
    """Marks that an operation on a stream reported an error."""
    st.tag["ioerr"] = st.tag.get("ioerr", ()) if st.tag.get("ioerr") else ("err",)
    I.hook("ioerr", st, what, sid)


def read_into(c, st, stream, buf_slice, n, name):
    """Reads exactly n bytes into the slice; [(state, ok?)]."""
    I = c.I
    if stream[0] == "sid":
        sid = stream[1]
        if st.f.prove_eq0(n):
            return [(st, True)]
        bad = st.copy()
        pos = getpos(I, st, sid)
        hook = I.stream_read
        if hook is not None:
            r = hook(I, st, sid, pos, n, buf_slice)
            if r is not None:
                return r
        emit(I, st, ("read", sid, pos, n))
        slice_write(I, st, buf_slice, ZERO, n, I.subcontent(st, ("u", ("stream", sid)), pos, n))
        setpos(st, sid, pos.add(n))
        if st.f.prove_ge0(L(MAXLEN).sub(pos)) or st.f.prove_ge0(n.sub(1)):
            fits(st, pos.add(n))
        emit(I, bad, ("readfail", sid, pos, n))
        setpos(bad, sid, named(("badpos", sid, pos, n), 0, MAXLEN))
        slice_write(I, bad, buf_slice, ZERO, n, ("u", ("partial", sid, pos, n)))
        failed(I, bad, "read", sid)
        return [(st, True), (bad, False)]
    if stream[0] == "bytes":
        # &[u8] as Read: consumes the slice
        cell, path = stream[1], stream[2]
        s = I.read(st, cell, path)
        out = []
        for s2, k in I.split(st, I.simp(st, ("cge", s[4].sub(n)))):
            if k:
                q = slice_q(I, s2, ("S", s[1], s[2], s[3], n))
                slice_write(I, s2, buf_slice, ZERO, n, q[3])
                I.write(s2, cell, path, ("S", s[1], s[2], s2.f.norm(s[3].add(n)), s2.f.norm(s[4].sub(n))))
                out.append((s2, True))
            else:
                failed(I, s2, "read", "bytes")
                out.append((s2, False))
        return out
    if stream[0] == "cursor":
        w, ref = stream[1], stream[2]
        pos = w[4]
        s = cursor_slice(I, st, w)
        out = []
        for s2, k in I.split(st, I.simp(st, ("cge", s[4].sub(pos).sub(n)))):
            if k:
                q = slice_q(I, s2, ("S", s[1], s[2], s2.f.norm(s[3].add(pos)), n))
                slice_write(I, s2, buf_slice, ZERO, n, q[3])
                cursor_set(I, s2, ref, w, pos.add(n))
                out.append((s2, True))
            else:
                failed(I, s2, "read", "cursor")
                out.append((s2, False))
        return out
    raise Imprecise("read from " + stream[0])


def cursor_slice(I, st, w):
    inner = w[3]
    if inner[0] == "Q":
        raise Imprecise("cursor over an owned buffer")
    return to_slice(I, st, inner)


def cursor_set(I, st, ref, w, pos):
    if ref is None:
        raise Imprecise("cursor position")
    I.write(st, ref[1], ref[2], w[:4] + (st.f.norm(pos),))


def is_ref_to_custom(I, st, v, trait):
    return None


@model(("Read", "*", "read_exact"), ("Read", None, "read_exact"))
def m_read_exact(c):
    I = c.I
    stream = stream_of(I, c.st, c.args[0])
    buf = to_slice(I, c.st, c.args[1])
    out = []
    for s, k in read_into(c, c.st, stream, buf, c.st.f.norm(buf[4]), "read_exact"):
        out.append((s, ok(c.dty, UNITV) if k else ioerr(c.dty, "read")))
    return out


@model(("Read", "*", "read"), ("Read", None, "read"))
def m_read(c):
    I = c.I
    stream = stream_of(I, c.st, c.args[0])
    buf = to_slice(I, c.st, c.args[1])
    if stream[0] != "sid":
        if stream[0] in ("cursor", "bytes"):
            if stream[0] == "cursor":
                w = stream[1]
                s = cursor_slice(I, c.st, w)
                avail = s[4].sub(w[4])
            else:
                s = I.read(c.st, stream[1], stream[2])
                avail = s[4]
            out = []
            for s1, pastend in I.split(c.st, I.simp(c.st, ("cge", avail.neg()))):
                if pastend:
                    emit(I, s1, ("cread", ZERO, buf[4]))
                    out.append((s1, ok(c.dty, ZERO)))
                    continue
                for s2, n in pick(I, s1, buf[4], s1.f.norm(avail), True):
                    sub = ("S", buf[1], buf[2], buf[3], n)
                    for s3, k in read_into(c, s2, stream, sub, n, "read"):
                        out.append((s3, ok(c.dty, n)))
            return out
        raise Imprecise("read from " + stream[0])
    sid = stream[1]
    st = c.st
    bad = st.copy()
    pos = getpos(I, st, sid)
    n = fresh("n_read", 0, MAXLEN)
    st.f.assume_ge0(buf[4].sub(n))
    emit(I, st, ("read", sid, pos, n))
    old = slice_q(I, st, buf)
    slice_write(I, st, buf, ZERO, buf[4], I.mkcat(st, ((I.subcontent(st, ("u", ("stream", sid)), pos, n), n), (I.subcontent(st, old[3], n, buf[4].sub(n)), buf[4].sub(n)))))
    setpos(st, sid, pos.add(n))
    failed(I, bad, "read", sid)
    emit(I, bad, ("readfail", sid, pos, buf[4]))
    st.tag["partial"] = (st.tag.get("partial") or ()) + ((sid, n, buf[4]),)
    return [(st, ok(c.dty, n)), (bad, ioerr(c.dty, "read"))]


@model(("Read", "*", "read_to_end"), ("Read", None, "read_to_end"))
def m_read_to_end(c):
    I = c.I
    stream = stream_of(I, c.st, c.args[0])
    v, q = vec_at(c, 1)
    st = c.st
    if stream[0] == "cursor":
        w, ref = stream[1], stream[2]
        s = cursor_slice(I, st, w)
        emit(I, st, ("cread_to_end",))
        out = []
        for s2, k in I.split(st, I.simp(st, ("cge", s[4].sub(w[4])))):
            n = s2.f.norm(s[4].sub(w[4])) if k else ZERO
            r = slice_q(I, s2, ("S", s[1], s[2], s2.f.norm(s[3].add(w[4])), n)) if k else ("Q", U8, ZERO, EMPTY)
            I.write(s2, v[1], v[2], ("Q", q[1], s2.f.norm(q[2].add(n)), I.mkcat(s2, ((q[3], q[2]), (r[3], n)))))
            if k:
                cursor_set(I, s2, ref, w, s[4])
            out.append((s2, ok(c.dty, n)))
        return out
    if stream[0] != "sid":
        raise Imprecise("read_to_end from " + stream[0])
    sid = stream[1]
    bad = st.copy()
    pos = getpos(I, st, sid)
    n = named(("rest", sid, pos), 0, MAXLEN)
    I.hook("alloc_unbounded", st, sid, c.site)
    emit(I, st, ("read_to_end", sid, pos, n))
    I.write(st, v[1], v[2], ("Q", q[1], st.f.norm(q[2].add(n)), I.mkcat(st, ((q[3], q[2]), (I.subcontent(st, ("u", ("stream", sid)), pos, n), n)))))
    setpos(st, sid, pos.add(n))
    failed(I, bad, "read", sid)
    I.write(bad, v[1], v[2], I.opaque_val(("~partial", LN.uid()), mkty("adt", path=VEC, args=(U8, mkty("adt", path="alloc::alloc::Global")))))
    return [(st, ok(c.dty, n)), (bad, ioerr(c.dty, "read"))]


def append_out(I, st, sid, q):
    cur = st.mem.get(("out", sid))
    if cur is None:
        cur = I.load(st, ("out", sid))
    st.mem[("out", sid)] = ("Q", U8, st.f.norm(cur[2].add(q[2])), I.mkcat(st, ((cur[3], cur[2]), (q[3], q[2]))))


def fits(st, n):
    """No stream or buffer is longer than isize::MAX bytes (an allocation beyond that is not a matter of this code)."""
    st.f.assume_ge0(L(MAXLEN).sub(n))


def write_bytes(c, st, stream, q):
    """Writes the bytes q: [(state, ok?)]."""
    I = c.I
    if stream[0] == "vec":
        cell, path = stream[1], stream[2]
        old = I.read(st, cell, path)
        I.write(st, cell, path, ("Q", old[1], st.f.norm(old[2].add(q[2])), I.mkcat(st, ((old[3], old[2]), (q[3], q[2])))))
        fits(st, old[2].add(q[2]))
        return [(st, True)]
    if stream[0] == "sid":
        sid = stream[1]
        bad = st.copy()
        emit(I, st, ("write", sid, q, getpos(I, st, sid)))
        append_out(I, st, sid, q)
        p = st.mem.get(("pos", sid))
        if p is not None:
            setpos(st, sid, p.add(q[2]))
        else:
            p = getpos(I, st, sid)
            setpos(st, sid, p.add(q[2]))
        if st.f.prove_ge0(L(MAXLEN).sub(p)) or st.f.prove_ge0(q[2].sub(1)):
            fits(st, p.add(q[2]))
        emit(I, bad, ("writefail", sid, q))
        failed(I, bad, "write", sid)
        bad.mem[("out", sid)] = I.opaque_val(("~badout", LN.uid()), VECU8)
        return [(st, True), (bad, False)]
    if stream[0] == "cursor":
        w, ref = stream[1], stream[2]
        v = w[3]
        if v[0] != "R":
            raise Imprecise("cursor write")
        old = I.read(st, v[1], v[2])
        n = 0
        while old[0] == "R":
            v = old
            old = I.read(st, v[1], v[2])
        if old[0] != "Q":
            raise Imprecise("cursor write")
        pos = w[4]
        emit(I, st, ("cwrite", pos, q))
        out = []
        end = st.f.norm(pos.add(q[2]))
        fits(st, end)
        for s, ext in I.split(st, I.simp(st, ("cge", end.sub(old[2])))):
            if ext:
                for s2, inside in I.split(s, I.simp(s, ("cge", old[2].sub(pos)))):
                    if inside:
                        new = ("Q", U8, end, I.mkcat(s2, ((I.subcontent(s2, old[3], ZERO, pos), pos), (q[3], q[2]))))
                    else:
                        gap = s2.f.norm(pos.sub(old[2]))
                        new = ("Q", U8, end, I.mkcat(s2, ((old[3], old[2]), (("rep", ZERO), gap), (q[3], q[2]))))
                    I.write(s2, v[1], v[2], new)
                    cursor_set(I, s2, ref, w, end)
                    out.append((s2, True))
            else:
                rest = s.f.norm(old[2].sub(end))
                new = ("Q", U8, old[2], I.mkcat(s, ((I.subcontent(s, old[3], ZERO, pos), pos), (q[3], q[2]), (I.subcontent(s, old[3], end, rest), rest))))
                I.write(s, v[1], v[2], new)
                cursor_set(I, s, ref, w, end)
                out.append((s, True))
        return out
    raise Imprecise("write to " + stream[0])


VECU8 = mkty("adt", path=VEC, args=(U8, mkty("adt", path="alloc::alloc::Global")))


@model(("Write", "*", "write_all"), ("Write", None, "write_all"))
def m_write_all(c):
    I = c.I
    stream = stream_of(I, c.st, c.args[0])
    q = slice_q(I, c.st, to_slice(I, c.st, c.args[1]))
    out = []
    for s, k in write_bytes(c, c.st, stream, q):
        out.append((s, ok(c.dty, UNITV) if k else ioerr(c.dty, "write")))
    return out


@model(("Write", "*", "write"), ("Write", None, "write"))
def m_write(c):
    I = c.I
    st = c.st
    stream = stream_of(I, st, c.args[0])
    q = slice_q(I, st, to_slice(I, st, c.args[1]))
    if stream[0] == "vec":
        return [(s, ok(c.dty, q[2])) for s, k in write_bytes(c, st, stream, q)]
    n = fresh("n_written", 0, MAXLEN)
    st.f.assume_ge0(q[2].sub(n))
    sub = ("Q", q[1], n, I.subcontent(st, q[3], ZERO, n))
    out = []
    for s, k in write_bytes(c, st, stream, sub):
        out.append((s, ok(c.dty, n) if k else ioerr(c.dty, "write")))
    return out


@model(("Write", "*", "flush"), ("Write", None, "flush"))
def m_flush(c):
    I = c.I
    stream = stream_of(I, c.st, c.args[0])
    if stream[0] != "sid":
        return ret(c.st, ok(c.dty, UNITV))
    bad = c.st.copy()
    failed(I, bad, "flush", stream[1])
    return [(c.st, ok(c.dty, UNITV)), (bad, ioerr(c.dty, "flush"))]


@model(("Seek", "*", "seek"), ("Seek", None, "seek"), ("Seek", "*", "rewind"), ("Seek", None, "rewind"),
       ("Seek", "*", "stream_position"), ("Seek", None, "stream_position"), (None, "Cursor", "set_position"), (None, "Cursor", "position"))
def m_seek(c):
    I, st = c.I, c.st
    stream = stream_of(I, st, c.args[0])
    cur = None
    if c.method in ("stream_position", "position"):
        if stream[0] == "cursor":
            p = stream[1][4]
        elif stream[0] == "sid":
            p = getpos(I, st, stream[1])
        else:
            raise Imprecise("position")
        return ret(st, p if c.method == "position" else ok(c.dty, p))
    if c.method == "rewind":
        to = ZERO
    elif c.method == "set_position":
        to = c.args[1]
    else:
        w = c.args[1]
        if w[0] != "A":
            raise Imprecise("seek target")
        if w[2] == 0:
            to = w[3][0]
        elif w[2] == 2:
            base = stream[1][4] if stream[0] == "cursor" else getpos(I, st, stream[1])
            to = st.f.norm(base.add(w[3][0]))
        else:
            to = fresh("~end", 0, MAXLEN)
    if stream[0] == "cursor":
        cursor_set(I, st, stream[2], stream[1], to)
        if c.method == "set_position":
            return ret(st)
        return ret(st, ok(c.dty, UNITV if c.method == "rewind" else to))
    if stream[0] != "sid":
        raise Imprecise("seek in " + stream[0])
    sid = stream[1]
    bad = st.copy()
    emit(I, st, ("seek", sid, to))
    setpos(st, sid, to)
    emit(I, bad, ("seekfail", sid, to))
    failed(I, bad, "seek", sid)
    return [(st, ok(c.dty, UNITV if c.method == "rewind" else to)), (bad, ioerr(c.dty, "seek"))]


@model((None, "Cursor", "new"))
def m_cursor(c):
    v = c.args[0]
    if v[0] == "Q":
        cell = ("own", c.I.newcell())
        c.st.mem[cell] = v
        v = ("R", cell, ())
    return ret(c.st, ("I", "wrap", "cursor", v, ZERO))


@model((None, "Cursor", "into_inner"), (None, "Cursor", "get_ref"), (None, "Cursor", "get_mut"))
def m_cursor_inner(c):
    v = c.args[0]
    if v[0] == "R":
        v = c.I.read(c.st, v[1], v[2])
    if v[0] == "I" and v[1] == "wrap":
        inner = v[3]
        if c.method == "into_inner" and inner[0] == "R" and isinstance(inner[1], tuple) and inner[1][0] == "own":
            return ret(c.st, c.I.read(c.st, inner[1], inner[2]))
        if c.method != "into_inner":
            if inner[0] == "R" and isinstance(inner[1], tuple) and inner[1][0] == "own":
                return ret(c.st, inner)
            return None
        return ret(c.st, inner)
    return None


@model((None, "BufReader", "new"), (None, "BufReader", "with_capacity"), (None, "BufWriter", "new"), (None, "BufWriter", "with_capacity"))
def m_bufreader(c):
    return ret(c.st, ("I", "wrap", "buf", c.args[-1], ZERO))


@model((None, "BufReader", "into_inner"))
def m_bufinner(c):
    v = c.args[0]
    if v[0] == "I" and v[1] == "wrap":
        return ret(c.st, v[3])
    if v[0] == "O":
        return ret(c.st, c.I.opaque_val((v[1], "inner"), c.dty))
    return None


def readahead(I, st, v, depth=0):
    """Is there a buffered reader of its own (to be dropped together with what it read ahead) on the way to the stream?"""
    if depth > 12 or not isinstance(v, tuple):
        return False
    if v[0] == "R":
        x = I.read(st, v[1], v[2])
        return isinstance(x, tuple) and x[0] in ("R", "I") and x[1] != "buf" and v[2] == () and readahead(I, st, x, depth + 1)
    if v[0] == "I" and v[1] == "wrap":
        return v[2] == "buf" or readahead(I, st, v[3], depth + 1)
    return False


def encoder_model(kind, at, fallible):
    """A compressor writing to a stream: what goes in is recorded as writes to a stream of its own."""
    def f(c):
        I, st = c.I, c.st
        w = c.args[at]
        stream = stream_of(I, st, w)
        sid = ("enc", kind, LN.uid())
        emit(I, st, ("encoder", kind, stream[1] if stream[0] == "sid" else stream[:3], sid))
        v = ("I", "wrap", "dec", w, sid)
        if fallible:
            bad = st.copy()
            failed(I, bad, "encoder", sid)
            return [(st, ok(c.dty, v)), (bad, ioerr(c.dty, "encoder"))]
        return ret(st, v)
    return f


TABLE[(None, "Encoder", "new")] = encoder_model("zstd", 0, True)
TABLE[(None, "CompressorWriter", "new")] = encoder_model("brotli", 0, False)
TABLE[(None, "CompressorWriter", "with_encoder")] = encoder_model("brotli", 1, False)


@model((None, "Encoder", "set_pledged_src_size"), (None, "Encoder", "include_contentsize"), (None, "Encoder", "include_checksum"), (None, "Encoder", "long_distance_matching"),
       (None, "Encoder", "multithread"), (None, "Encoder", "window_log"), (None, "Encoder", "set_parameter"))
def m_enc_option(c):
    bad = c.st.copy()
    failed(c.I, bad, "encoder", None)
    return [(c.st, ok(c.dty, UNITV)), (bad, ioerr(c.dty, "encoder"))]


@model((None, "Encoder", "finish"), (None, "Encoder", "do_finish"), (None, "CompressorWriter", "into_inner"))
def m_enc_finish(c):
    v = c.args[0]
    v = deref(c.I, c.st, v) if v[0] == "R" else v
    if v[0] != "I" or v[1] != "wrap":
        return None
    bad = c.st.copy()
    failed(c.I, bad, "finish", v[4])
    emit(c.I, bad, ("encoder_fail", v[4]))
    emit(c.I, c.st, ("encoder_end", v[4]))
    res = UNITV if c.method == "do_finish" else v[3]
    et = c.dty.args[1]
    return [(c.st, ok(c.dty, res)), (bad, err(c.dty, c.I.opaque_val(("~encerr", LN.uid()), et)))]


def decoder_model(kind, fallible):
    def f(c):
        I, st = c.I, c.st
        src = c.args[0]
        stream = stream_of(I, st, src)
        if stream[0] != "sid":
            sid0, pos = ("mem", LN.uid()), ZERO
        else:
            sid0, pos = stream[1], getpos(I, st, stream[1])
        sid = ("dec", kind, sid0, pos)
        emit(I, st, ("decoder", kind, sid0, pos, sid, readahead(I, st, src)))
        v = ("I", "wrap", "dec", src, sid)
        if fallible:
            bad = st.copy()
            failed(I, bad, "decoder", sid0)
            return [(st, ok(c.dty, v)), (bad, err(c.dty, ("O", ("decerr", kind), c.dty.args[1])))]
        return ret(st, v)
    return f


TABLE[(None, "StreamingDecoder", "new")] = decoder_model("zstd", True)
TABLE[(None, "DecompressorReader", "new")] = decoder_model("brotli", False)


@model((None, "DecompressorReader", "into_inner"))
def m_dec_inner(c):
    v = c.args[0]
    bad = c.st.copy()
    failed(c.I, bad, "into_inner", "brotli")
    emit(c.I, c.st, ("decoder_end", v[4] if v[0] == "I" else "?"))
    inner = v[3] if v[0] == "I" else c.I.opaque_val(("~inner", LN.uid()), c.dty.args[0])
    return [(c.st, ok(c.dty, inner)), (bad, err(c.dty, ("O", ("decerr", "into_inner"), c.dty.args[1])))]


@model(("*", "Instant", "*"), ("*", "Duration", "*"))
def m_time(c):
    return ret(c.st, c.I.opaque_val(("?time", LN.uid()), c.dty))


@model(("AddOp", None, "bytes"), ("AddOp", "*", "bytes"))
def m_addop_bytes(c):
    """The bytes of an Add of an unknown type: some slice, the same one for the same Add."""
    v = deref(c.I, c.st, c.args[0])
    if v[0] != "O":
        return None
    u = ("bytes", v[1])
    return ret(c.st, ("S", ("op", u, mkty("slice", t=U8)), (), ZERO, named((u, "len"), 0, MAXLEN)))

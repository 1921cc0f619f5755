"""C04: no reported error is dropped: an operation during which a stream or codec failed does not report success."""
import re
from base import *
import base

STD = ("core::", "std::", "alloc::")
IOTRAIT = re.compile(r"\bio::(?:[a-z_]+::)*(?:Read|Write|Seek|BufRead)\b")


def run(ck):
    p = ck.p
    io = sorted(f for f in p.fns if "{" not in f and own(p, f))
    for path in io:
        ck.section(path, one, ck, path)
    n = sum(len(own(p, f)) for f in p.fns)
    ck.floor("functions followed", 25)
    ck.floor("fallible calls followed", 60)
    return dict(rule="for every call that can report an I/O, codec or format error: on every path on which it does, the function it is made in ends by reporting an error itself "
                     "(a read that is repeated because it was interrupted excepted); decided function by function, callers assume it of their callees",
                bounds="%d fallible calls in %d functions" % (n, len(io)),
                assumptions=["streams and codecs report their failures through the results of their methods", "a write into a Vec does not fail"])


def fallible(t):
    if t is None or t.k != "adt":
        return False
    if t.path == OPTION:
        return fallible(t.args[0])
    if t.path != RESULT or len(t.args) < 2:
        return False
    e = t.args[1]
    return e.k == "adt" and e.path not in ("core::fmt::Error", "core::num::error::TryFromIntError") and "num::" not in e.path


def vecself(path):
    return re.search(r"<(?:std|alloc)::vec::Vec<", path) is not None


def is_io(p, path, dty):
    """Is this a call that can report a failure of a stream, codec or format?"""
    if not fallible(dty):
        return False
    if path in p.fns:
        return True
    if path.startswith(STD):
        return IOTRAIT.search(path) is not None and not vecself(path)
    return True


def own(p, path):
    """The fallible calls of a function and the closures in it."""
    out = []
    for q, fn in p.fns.items():
        if q == path or (q.startswith(path + "::{") and "closure" in q):
            for i, b in enumerate(fn.blocks):
                t = b[1]
                if t["t"] == "call" and "ptr" not in t["f"]:
                    f = t["f"]
                    if is_io(p, f.get("res") or f["path"], t["dest"][2]):
                        out.append((q, t["sp"]))
    return out


def one(ck, path):
    p = ck.p
    fn = p.fns[path]
    I = ck.interp(100)
    I.hp = "hv."
    I.light = True
    deep = {}

    def does_io(q, seen=()):
        if q not in deep:
            deep[q] = False
            deep[q] = bool(own(p, q)) or any(does_io(r) for r in callees(p, q))
        return deep[q]
    seen = set()

    def pre(I, st, f, callee, args, env, dty, site, raw):
        if f is not None and f.kind == "closure" if f is not None else False:
            return None
        if is_io(p, callee, dty):
            if raw is not None and "trait" in raw and args and isvec(I, st, args[0]):
                return None
            where = I.where()
            seen.add(where)
            ck.count("fallible calls followed")
            for a in args:
                forget(I, st, a)
            out = []
            t = dty.args[0] if dty.path == OPTION else dty
            bad = st.copy()
            k = (I.where(), str(site))
            if not bad.tag.get("err") or retried(I, bad):
                bad.var.pop(("errkind", ("ioerr", k)), None)
                bad.tag["err"] = ("str", "%s at %s" % (short(callee), where_sp(I, site)))
                bad.tag["errid"] = ("str", k)
            e = ("A", t, 1, (("O", ("ioerr", k), t.args[1]),))
            v = ("A", t, 0, (value(I, st, t.args[0], k),))
            if dty.path == OPTION:
                out.append((st.copy(), IT.none(t)))
                v, e = IT.some(t, v), IT.some(t, e)
            return out + [(st, v), (bad, e)]
        if f is not None and "{" not in f.path and not does_io(f.path):
            for a in args:
                forget(I, st, a)
            return [] if dty.k == "never" else [(st, value(I, st, dty, (I.where(), str(site))))]
        return None

    def lost(I, st, callee, args):
        if st.tag.get("err") and any(holds(I, st, a) for a in args):
            st.tag["lost"] = ("str", callee)
    I.pre_call, I.on_unknown = pre, lost
    st = State()
    args = [I.opaque_val(("arg", i), t) for i, t in enumerate(fn.args_ty())]
    for s, v in I.call_fn(st, fn, args, genv(fn)):
        if not s.tag.get("err"):
            continue
        what = s.tag["err"][1]
        key = "%s: %s" % (path, what.rsplit(" at ", 1)[0])
        r = reports(I, s, v)
        if r is True:
            ck.ok(key)
        elif retried(I, s) is True:
            ck.ok(key)
        elif r is None or retried(I, s) is None or s.tag.get("lost") or any(holds(I, s, ("R", c, ())) for c in list(s.mem) if isinstance(c, tuple) and c[:1] == ("op",)):
            ck.undecided(key, "what becomes of an error of %s is not followed" % what)
        else:
            ck.bad(key, "%s: an error of %s is dropped: the function goes on to report success" % (path, what))
    ck.count("functions followed")
    ck.done(I)
    if not I.confirm and not seen:
        ck.undecided(path + ":calls", "no fallible call of the function is reached")


def value(I, st, ty, k):
    """Any value of the type. What a reference points to is named after the call site, so that loops keep their shape."""
    if foreign(ty):
        return ("O", ("hv.v", LN.uid()), ty)
    if not hasref(I.p, ty):
        return I.havoc_val(ty, "v")
    for c in [c for c in st.mem if isinstance(c, tuple) and c[0] == "op" and about(c[1], ("hv.v", k))]:
        del st.mem[c]
    return I.opaque_val(("hv.v", k), ty)


def foreign(ty):
    return ty.k == "adt" and not ty.path.startswith(STD + ("smdiff",))


def forget(I, st, v, depth=0, top=True):
    """v after a call that may have changed everything reachable through it; references keep pointing where they do."""
    if isinstance(v, Lin):
        return v if top else I.havoc_val(U64, "h")
    if not isinstance(v, tuple) or depth > 6:
        return v
    if v[0] in ("R", "S"):
        try:
            old = I.read(st, v[1], v[2])
        except Exception:
            return v
        new = forget(I, st, old, depth + 1, False)
        if new is not old:
            try:
                I.write(st, v[1], v[2], new)
            except Exception:
                st.mem[v[1]] = new
        return v
    if v[0] == "A":
        if foreign(v[1]) and not top and not hasref(I.p, v[1]):
            return ("O", ("hv.h", LN.uid()), v[1])
        a = I.p.adts.get(v[1].path) if v[1].k == "adt" else None
        if a is not None and a.kind == "enum" and not top and not hasref(I.p, v[1]):
            return I.havoc_val(v[1], "h")
        fts = I.p.adt_fields(v[1], v[2]) if v[1].k == "adt" else v[1].args if v[1].k == "tuple" else None
        out = []
        for i, x in enumerate(v[3]):
            t = fts[i] if fts is not None and len(fts) == len(v[3]) else None
            if not top and t is not None and not hasref(I.p, t) and t.k in ("int", "char", "bool"):
                out.append(I.havoc_val(t, "h"))
            else:
                out.append(forget(I, st, x, depth + 1, top))
        return ("A", v[1], v[2], tuple(out))
    if top:
        if v[0] == "I":
            for x in v[2:]:
                forget(I, st, x, depth + 1, True)
        return v
    if v[0] == "Q":
        return I.havoc_val(mkty("adt", path=VEC, args=(v[1],)), "h")
    if v[0] == "O":
        return I.havoc_val(v[2], "h")
    if v[0] == "I":
        return v[:2] + tuple(forget(I, st, x, depth + 1, not isinstance(x, Lin)) for x in v[2:])
    if v[0] in ("cge", "ceq", "cne", "cnot", "cand", "cor", "cbv"):
        return ("cbv", ("hv.h", LN.uid()))
    return v


def about(u, k):
    return u == k or isinstance(u, tuple) and any(about(x, k) for x in u)


def hasref(p, ty, depth=0):
    if ty.k == "ref":
        return True
    if ty.k in ("adt", "tuple") and depth < 4:
        if any(hasattr(a, "k") and hasref(p, a, depth + 1) for a in ty.args):
            return True
        a = p.adts.get(ty.path) if ty.k == "adt" else None
        if a is not None and a.full and a.kind == "struct":
            return any(hasref(p, t, depth + 1) for t in p.adt_fields(ty, 0) or ())
    return False


def callees(p, q):
    fn = p.fns.get(q)
    for r, f in p.fns.items():
        if r == q or (r.startswith(q + "::{") and "closure" in r):
            for b in f.blocks:
                t = b[1]
                if t["t"] == "call" and "ptr" not in t["f"]:
                    c = t["f"].get("res") or t["f"]["path"]
                    if c in p.fns:
                        yield c


def where_sp(I, site):
    try:
        return I.callstack[-1][1]["sp"] if isinstance(I.callstack[-1][1], dict) else str(site)
    except Exception:
        return str(site)


def isvec(I, st, a):
    while isinstance(a, tuple) and a[0] == "R":
        try:
            a = I.read(st, a[1], a[2])
        except Exception:
            return False
    return isinstance(a, tuple) and a[0] == "Q"


def holds(I, st, v, depth=0):
    """Is an error value in v, or reachable from it?"""
    if not isinstance(v, tuple) or depth > 5:
        return False
    if v[0] == "O":
        return isinstance(v[1], tuple) and v[1][:1] == ("ioerr",)
    if v[0] == "R":
        try:
            return holds(I, st, I.read(st, v[1], v[2]), depth + 1)
        except Exception:
            return False
    if v[0] == "A":
        return any(holds(I, st, x, depth + 1) for x in v[3])
    if v[0] == "I":
        return any(holds(I, st, x, depth + 1) for x in v[2:])
    return False


def retried(I, st):
    """Was the error an interruption? None: its kind was looked at, the outcome is not known."""
    if not st.tag.get("errid"):
        return False
    k = ("errkind", ("ioerr", st.tag["errid"][1]))
    if k not in st.var:
        return False
    return kind_name(I, st.var[k]) == "Interrupted"


def kind_name(I, i):
    a = I.p.adts.get("core::io::error::ErrorKind") or I.p.adts.get("std::io::error::ErrorKind")
    return a.variants[i][0] if a is not None and a.variants else None


def reports(I, st, v):
    if not isinstance(v, tuple):
        return False
    if v[0] == "A" and v[1].k == "adt" and v[1].path == OPTION:
        return reports(I, st, v[3][0]) if v[2] == 1 else False
    if is_err(v):
        return True
    if v[0] == "O" and fallible(v[2]):
        return None
    return False

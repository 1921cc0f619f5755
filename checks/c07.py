"""C07: section iterators end exactly after the last section or the first error."""
from base import *
from opsem import Ops
import contracts

R, D = "smdiff_reader", "smdiff_decoder"


def run(ck):
    for crate in (R, D):
        for a in ("next_borrowed", "next"):
            ck.section("%s: new, then %s" % (crate, a), first, ck, crate, a)
            for b in ("next_borrowed", "next"):
                ck.section("%s: %s, then %s" % (crate, a, b), twice, ck, crate, a, b)
    ck.floor("pairs of calls", 8)
    return dict(rule="from any state of the iterator: a call returning an error, a final section or None is followed by None without touching the stream; "
                     "a call returning a section that says more follow is followed by a section or an error; a new iterator's first call is a section or an error",
                assumptions=["read_section_header and read_ops_no_comp by contract (C05, C08, C11)"])


def fn_of(ck, crate, name):
    return ck.tfn(crate, "Iterator", "next", "SectionIterator") if name == "next" else ck.fn(crate, name, "SectionIterator")


def setup(ck):
    I = ck.interp(250)
    contracts.use_varints(ck, I)
    contracts.use_deltas(ck, I)
    O = Ops(ck)
    O.attach(I, ())
    contracts.use_read_ops(ck, I, O)
    contracts.use_header(ck, I)
    contracts.use_sections(ck, I, O, R)
    contracts.use_nested(ck, I)
    return I, O


def own(ck, I, crate):
    """The iterators under test are not taken by contract here."""
    for n in ("next_borrowed", "next_owned"):
        f = ck.find(crate, n, "SectionIterator")
        if f is not None:
            I.contracts.pop(f.path, None)
    I.contracts.pop(ck.tfn(crate, "Iterator", "next", "SectionIterator").path, None)


def kind(v):
    """none / err / ok"""
    if v[0] != "A" or v[1].path != OPTION:
        return None
    if v[2] == 0:
        return "none"
    r = v[3][0]
    return "err" if is_err(r) else "ok" if is_ok(r) else None


def reads(s):
    return [e for e in s.events() if e[0] in ("header", "headerfail", "readops", "readopsfail", "read", "readfail", "nested", "uvarint", "uvfail", "seek", "seekfail")]


def flags(I, s, c):
    it = I.read(s, c, ())
    if it[0] != "A":
        return None
    return tuple(str(I.decide(s, x)) for t, x in zip(I.p.adt_fields(it[1], 0), it[3]) if t.k == "bool")


def first(ck, crate, a):
    I, O = setup(ck)
    own(ck, I, crate)
    st = State()
    new = ck.fn(crate, "new", "SectionIterator")
    src = ("O", ("in", "stream"), mkty("param", name="R"))
    for s, it in I.call_fn(st, new, [src], genv(new)):
        c = ("cell", "iter")
        s.mem[c] = it
        fn = fn_of(ck, crate, a)
        for s2, v in I.call_fn(s, fn, [ref(c)], genv(fn)):
            k = kind(v)
            verdict(ck, I, s2, None if k is None else k != "none", "new", "a new iterator ends before its first section")
    ck.done(I)


def verdict(ck, I, s, good, key, text):
    ck.ob(True if good else (None if good is None or models.state_tainted(I, s) else False), key, text)


def twice(ck, crate, a, b):
    I, O = setup(ck)
    own(ck, I, crate)
    h = ck.adt("smdiff_common", "SectionHeader")
    hi = {m: i for i, (m, _, _) in enumerate(h.variants[0][2])}
    fa, fb = fn_of(ck, crate, a), fn_of(ck, crate, b)
    st = State()
    c = ("cell", "iter")
    it = ck.adt(crate, "SectionIterator")
    st.mem[c] = I.opaque_val(("iter",), mkty("adt", path=it.path, args=(mkty("param", name="R"),)))
    seen, ways = {}, set()
    for s, v in I.call_fn(st, fa, [ref(c)], genv(fa)):
        k = kind(v)
        if k is None:
            ck.undecided("first", "the result of %s is not followed" % a)
            continue
        if k == "ok":
            hdr = I.proj(s, v[3][0][3][0], 1)
            more = I.proj(s, hdr, hi["more_sections"])
            d = I.decide(s, more)
            cases = [(s, d)] if d is not None else [(s2, t) for s1, t in I.split(s, more) for s2 in I.assume(s1, more if t else I.cnot(more))]
            cases = [(s2, "more" if t else "last") for s2, t in cases]
        else:
            cases = [(s, k)]
        for s2, k in cases:
            seen[k] = seen.get(k, 0) + 1
            if k != "none":
                # one state for each way of getting here (what was read, through which codec) and each final iterator state
                way = (k, tuple(e[0] for e in s2.events() if e[0] not in ("alloc",)), flags(I, s2, c))
                if way in ways:
                    continue
                ways.add(way)
            n0 = len(reads(s2))
            for s3, w in I.call_fn(s2.copy(), fb, [ref(c)], genv(fb)):
                k2 = kind(w)
                if k2 is None:
                    ck.undecided("second", "the result of %s is not followed" % b)
                elif k == "more":
                    verdict(ck, I, s3, k2 != "none", "more", "the iterator ends although the last section said more follow")
                else:
                    verdict(ck, I, s3, k2 == "none", k, "the iterator goes on after %s" % {"err": "an error", "last": "the last section", "none": "it had ended"}[k])
                    verdict(ck, I, s3, len(reads(s3)) == n0, k + ":reads", "the iterator reads on after %s" % {"err": "an error", "last": "the last section", "none": "it had ended"}[k])
    for k in ("more", "last", "err", "none"):
        if not seen.get(k):
            ck.undecided("reached:" + k, "no %s outcome seen" % k)
    ck.count("pairs of calls", len(seen) >= 4)
    ck.done(I)

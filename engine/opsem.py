"""What an operation means: measures over operation sequences (output length, add bytes, count ...)."""
from base import *

C = "smdiff_common"
MAXOP = 65535


class Ops:
    """Finds the operation type of the analysed tree and gives the meaning of its values."""

    def __init__(self, ck):
        self.ck = ck
        self.op = ck.adt(C, "Op")
        self.src = ck.adt(C, "CopySrc")
        self.run = ck.adt(C, "Run")
        self.copy = ck.adt(C, "Copy")
        self.v = {vr[0]: i for i, vr in enumerate(self.op.variants)}
        for n in ("Run", "Copy", "Add"):
            if n not in self.v:
                ck.bad("anchor:Op::" + n, "the operation type has no variant " + n)
                raise Missing(n)
        fi = lambda a: {n: i for i, (n, _, _) in enumerate(a.variants[0][2])}
        self.rf, self.cf = fi(self.run), fi(self.copy)
        for n in ("byte", "len"):
            if n not in self.rf:
                raise Missing("Run." + n)
        for n in ("src", "addr", "len"):
            if n not in self.cf:
                raise Missing("Copy." + n)
        self.sv = {vr[0]: i for i, vr in enumerate(self.src.variants)}

    def ty(self, a="A"):
        t = mkty("param", name=a) if isinstance(a, str) else a
        return mkty("adt", path=self.op.path, args=(t,))

    def isop(self, t):
        return t.k == "adt" and t.path == self.op.path

    # ---- one operation ----------------------------------------------------------------------
    def variant(self, st, v):
        if v[0] == "A":
            return v[2]
        if v[0] == "O":
            return st.var.get(v[1])
        return None

    def body(self, I, st, v):
        k = self.variant(st, v)
        return None if k is None else (k, I.proj(st, I.expand(v, k) if v[0] == "O" else v, 0))

    def addlen(self, I, st, a):
        """Length of the bytes of an Add."""
        r = self.addbytes(I, st, a)
        return None if r is None else r[1]

    def addbytes(self, I, st, a):
        """(content, length) of the bytes of an Add of whatever type."""
        if a[0] == "O" and a[2].k == "param":
            u = ("bytes", a[1])
            ln = named((u, "len"), 0, MAXI)
            return (("u", (u, "*")), ln)
        if a[0] == "Q":
            return (a[3], a[2])
        if a[0] == "S":
            q = models.slice_q(I, st, a)
            return (q[3], q[2])
        if a[0] == "R":
            return self.addbytes(I, st, I.read(st, a[1], a[2]))
        if a[0] in ("A", "O") and a[1 if a[0] == "A" else 2].k == "adt":
            ty = a[1] if a[0] == "A" else a[2]
            b = I.bytes_of.get(ty.path) if hasattr(I, "bytes_of") else None
            if b is not None:
                return b(I, st, a)
            if a[0] == "A" and len(a[3]) == 1:
                return self.addbytes(I, st, a[3][0])
            fs = I.p.adt_fields(ty, 0)
            if a[0] == "O" and fs is not None and len(fs) == 1:
                return self.addbytes(I, st, I.proj(st, a, 0))
        return None

    def oal(self, I, st, v):
        b = self.body(I, st, v)
        if b is None:
            return self.sym("oal", v)
        k, x = b
        if k == self.v["Run"]:
            return I.proj(st, x, self.rf["len"])
        if k == self.v["Copy"]:
            return I.proj(st, x, self.cf["len"])
        return self.addlen(I, st, x)

    def adds(self, I, st, v):
        b = self.body(I, st, v)
        if b is None:
            return self.sym("adds", v)
        return self.addlen(I, st, b[1]) if b[0] == self.v["Add"] else ZERO

    def isdict(self, I, st, v):
        """1 for a copy from the dictionary."""
        b = self.body(I, st, v)
        if b is None:
            return self.sym("isdict", v)
        if b[0] != self.v["Copy"]:
            return ZERO
        s = I.proj(st, b[1], self.cf["src"])
        k = s[2] if s[0] == "A" else st.var.get(s[1])
        if k is None:
            return named(("m", "dict", s[1]), 0, 1)
        return LN.ONE if k == self.sv["Dict"] else ZERO

    def sym(self, name, v):
        if v[0] != "O":
            return None
        return named(("m", name, v[1]), 0, 1 if name.startswith("is") else MAXI)

    minlen = 0
    MEAS = ("oal", "adds", "isdict")

    def attach(self, I, names=("oal", "adds"), limit=None):
        """Makes the interpreter track the sums of the named measures over sequences of operations.
        limit: every operation's output length is at most this (the caller's contract)."""
        ms = tuple((n, (lambda I, st, v, n=n: getattr(self, n)(I, st, v))) for n in names)
        I.measures[self.isop] = ms

        def chosen(I, st, v, i):
            if self.isop(v[2]):
                for n in names:
                    if n == "isdict":
                        if i != self.v["Copy"]:
                            st.f.assume_eq0(self.sym(n, v))
                        else:
                            x = getattr(self, n)(I, st, v)
                            st.f.assume_eq0(self.sym(n, v).sub(x))
                        continue
                    x = getattr(self, n)(I, st, v)
                    if x is not None:
                        st.f.assume_eq0(self.sym(n, v).sub(x))
                        if limit is not None and n == "oal":
                            st.f.assume_ge0(L(limit).sub(x))
                            st.f.assume_ge0(x.sub(self.minlen))
            elif v[2].k == "adt" and v[2].path == self.src.path and "isdict" in names:
                st.f.assume_eq0(named(("m", "dict", v[1]), 0, 1).sub(LN.ONE if i == self.sv["Dict"] else ZERO))
        I.hooks.setdefault("variant", []).append(chosen)
        return ms

    def seq(self, I, st, tag, ty=None, maxlen=None):
        """An arbitrary sequence of operations in a cell: (cell, length, content)."""
        c = ("cell", ("ops", tag))
        n = named(("nops", tag), 0, maxlen if maxlen is not None else MAXI)
        ct = ("u", ("opseq", tag))
        st.mem[c] = ("Q", ty or self.ty(), n, ct)
        return c, n, ct

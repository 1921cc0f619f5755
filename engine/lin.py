"""Integer terms of the abstract domain.

Lin        linear form  c + sum(coef * symbol)  over the (ideal, unbounded) integers
symbols    hash-consed; a symbol is free, or defined by a term (wrap-around, bit pattern, quotient, ...)
Facts      what a partition knows: linear inequalities, disequalities, equalities (solved), known bits

Entailment is decided by Fourier-Motzkin elimination with integer tightening; it is sound for proving,
incomplete (bounded) by design.
"""
from math import gcd

HARD = False      # take everything known into account, at any cost
SYM = []          # id -> Sym
_BYDEF = {}


class Sym:
    __slots__ = ("id", "d", "lo", "hi", "cons", "deps")


def sym(d, lo, hi, cons=None):
    s = _BYDEF.get(d)
    if s is not None:
        return s.id
    s = Sym()
    s.id = len(SYM)
    s.d, s.lo, s.hi = d, lo, hi
    s.cons = []
    SYM.append(s)
    _BYDEF[d] = s
    if cons:
        s.cons = cons(Lin(0, ((s.id, 1),)))
    return s.id


_ctr = [0]


def uid():
    _ctr[0] += 1
    return _ctr[0]


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self.__eq__(o)

    def is_const(self):
        return not self.t

    def add(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t:
            return Lin(self.c + o.c, self.t) if o.c else self
        if not self.t:
            return Lin(self.c + o.c, o.t) if self.c else o
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                del d[s]
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((s, c * k) for s, c in self.t))

    def neg(self):
        return self.scale(-1)

    def sub(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self.add(o.scale(-1))

    __add__ = add
    __sub__ = sub

    def single(self):
        """symbol id if this is exactly one symbol."""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None

    def syms(self):
        return [s for s, _ in self.t]

    def __repr__(self):
        if not self.t:
            return str(self.c)
        r = []
        for s, k in self.t:
            n = symname(s)
            if k == 1:
                r.append("+" + n)
            elif k == -1:
                r.append("-" + n)
            else:
                r.append("%+d*%s" % (k, n))
        if self.c:
            r.append("%+d" % self.c)
        o = "".join(r)
        return o[1:] if o.startswith("+") else o


ZERO = Lin(0)
ONE = Lin(1)


def L(n):
    return Lin(n)


def S(s):
    return Lin(0, ((s, 1),))


def fresh(name, lo=None, hi=None):
    return S(sym(("var", name, uid()), lo, hi))


def named(key, lo=None, hi=None):
    """The symbol named by `key` (same key, same symbol)."""
    return S(sym(("var", key, 0), lo, hi))


def symname(s):
    d = SYM[s].d
    k = d[0]
    if k == "var":
        n = d[1]
        if not isinstance(n, str):
            n = _short(n)
        return n + ("#%d" % d[2] if d[2] else "")
    if k == "wrap":
        return "wrap%s%d(%r)" % ("s" if d[2] else "u", d[1], d[3])
    if k == "bits":
        return bitsname(d)
    return k + "(" + ",".join(_short(x) for x in d[1:]) + ")"


def _short(x):
    if isinstance(x, tuple):
        return ".".join(_short(y) for y in x)
    return str(x)


def bitsname(d):
    out = []
    for b in d[3]:
        if b in (0, 1):
            out.append(str(b))
        else:
            out.append(("!" if b[0] else "") + "^".join("%s[%d]" % (symname(s), i) for s, i in sorted(b[1])))
    # compress
    return "bits%d{%s}" % (d[1], ",".join(out[:10]) + (",.." if len(out) > 10 else ""))


# ------------------------------------------------------------------------------------------
class Facts:
    """What one partition knows about the symbols."""
    __slots__ = ("cons", "bnd", "ne", "sub", "bits", "dead", "ver", "_cache")

    def __init__(self):
        self.cons = []
        self.bnd = {}
        self.ne = []
        self.sub = {}
        self.bits = {}
        self.dead = False
        self.ver = 0
        self._cache = {}

    def copy(self):
        f = Facts()
        f.cons = list(self.cons)
        f.bnd = dict(self.bnd)
        f.ne = list(self.ne)
        f.sub = dict(self.sub)
        f.bits = dict(self.bits)
        f.dead = self.dead
        f.ver = self.ver
        f._cache = self._cache
        return f

    def touch(self):
        self.ver += 1
        self._cache = {}

    # -- bounds ------------------------------------------------------------
    def sbound(self, s):
        lo, hi = SYM[s].lo, SYM[s].hi
        b = self.bnd.get(s)
        if b:
            if b[0] is not None and (lo is None or b[0] > lo):
                lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi):
                hi = b[1]
        return lo, hi

    def interval(self, l):
        lo = hi = l.c
        for s, k in l.t:
            a, b = self.sbound(s)
            if k < 0:
                a, b = b, a
            if lo is not None:
                lo = None if a is None else lo + k * a
            if hi is not None:
                hi = None if b is None else hi + k * b
        return lo, hi

    # -- normalisation ---------------------------------------------------------
    def norm(self, l):
        if not l.t or not (self.sub or self.bits):
            return l
        r = None
        for s, k in l.t:
            n = self.nsym(s)
            if n is not None:
                if r is None:
                    r = l
                r = r.sub(Lin(0, ((s, k),))).add(n.scale(k))
        if r is None:
            return l
        return r

    def nsym(self, s):
        """Replacement of a symbol under the known equalities/bits, or None."""
        key = ("n", s)
        if key in self._cache:
            return self._cache[key]
        self._cache[key] = None
        r = None
        if s in self.sub:
            r = self.norm(self.sub[s])
        else:
            d = SYM[s].d
            k = d[0]
            if k == "wrap":
                i = self.norm(d[3])
                if i is not d[3] and i != d[3]:
                    r = wrap(self, d[1], d[2], i)
                else:
                    lo, hi = self.interval(i)
                    a, b = rangeof(d[1], d[2])
                    if lo is not None and hi is not None and lo >= a and hi <= b:
                        r = i
            elif k == "bits":
                nb = self.nbits(d[3])
                if nb != d[3]:
                    r = from_bits(self, nb, d[1], d[2])
            elif k == "uf" or k in ("div", "mul", "rem"):
                args = tuple(self.norm(a) if isinstance(a, Lin) else a for a in d[1:])
                if args != d[1:]:
                    r = rebuild(self, k, args, SYM[s])
        self._cache[key] = r
        if r is not None and s in self.bnd and s not in self.sub:
            lo, hi = self.bnd[s]
            for c in ([r.sub(lo)] if lo is not None else []) + ([L(hi).sub(r)] if hi is not None else []):
                if c.t and c not in self.cons:
                    a, b = self.interval(c)
                    if a is None or a < 0:
                        self.cons.append(c)
        return r

    def nbits(self, bits):
        out = []
        for b in bits:
            if b in (0, 1):
                out.append(b)
                continue
            c, at = b
            ch = False
            na = at
            for (s, i) in at:
                v = self.bits.get((s, i))
                if v is not None:
                    na = na ^ {(s, i)}
                    if v in (0, 1):
                        c ^= v
                    else:
                        v = self.nbits((v,))[0]
                        if v in (0, 1):
                            c ^= v
                        else:
                            c ^= v[0]
                            na = na ^ v[1]
                    ch = True
                    continue
                if s in self.sub or SYM[s].d[0] in ("wrap", "bits"):
                    n = self.nsym(s)
                    if n is not None:
                        w = i + 1
                        nb = to_bits(self, n, w)
                        x = nb[i]
                        na = na ^ {(s, i)}
                        ch = True
                        if x in (0, 1):
                            c ^= x
                        else:
                            c ^= x[0]
                            na = na ^ x[1]
            if not ch:
                # an upper bound may clear high bits
                for (s, i) in at:
                    lo, hi = self.sbound(s)
                    if (s, i) in na and lo is not None and lo >= 0 and hi is not None and hi < (1 << i):
                        na = na - {(s, i)}
                        ch = True
            if ch:
                out.append((c, na) if na else c)
            else:
                out.append(b)
        return tuple(out)

    # -- entailment -----------------------------------------------------------
    def prove_ge0(self, l):
        """True if l >= 0 is entailed."""
        l = self.norm(l)
        if not l.t:
            return l.c >= 0
        lo, hi = self.interval(l)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return self.dead
        key = ("p", l)
        v = self._cache.get(key)
        if v is None:
            v = self._fm_infeasible(l.neg().sub(1))
            self._cache[key] = v
        return v

    def prove_eq0(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c == 0
        if self.prove_ge0(l) and self.prove_ge0(l.neg()):
            return True
        if l.c == 0 and len(l.t) == 2 and l.t[0][1] + l.t[1][1] == 0 and abs(l.t[0][1]) == 1 and \
                (self.bits or any(SYM[s].d[0] == "bits" for s, _ in l.t)):
            # two values of the same range with the same bits
            (a, _), (b, _) = l.t
            (alo, ahi), (blo, bhi) = self.sbound(a), self.sbound(b)
            if None not in (alo, ahi, blo, bhi) and max(ahi, bhi) - min(alo, blo) < (1 << 64):
                if to_bits(self, S(a), 64) == to_bits(self, S(b), 64):
                    return True
        if 2 < len(l.t) <= 24 and any(SYM[s].d[0] == "bits" for s, _ in l.t):
            # both sides are put together from disjoint bits
            pos = Lin(max(l.c, 0), tuple((s, k) for s, k in l.t if k > 0))
            neg = Lin(max(-l.c, 0), tuple((s, -k) for s, k in l.t if k < 0))
            if all(0 <= (self.interval(x)[0] or 0) and (self.interval(x)[1] is not None and self.interval(x)[1] < (1 << 65)) for x in (pos, neg)):
                a, b = disjoint_bits(self, pos, 65), disjoint_bits(self, neg, 65)
                if a is not None and a == b:
                    return True
        u = self.unwrap(l)
        return u is not l and self.prove_eq0(u)

    def unwrap(self, l):
        """l without the wrap-arounds that provably do not happen."""
        for s, k in l.t:
            d = SYM[s].d
            if d[0] == "wrap":
                i = self.norm(d[3])
                a, b = rangeof(d[1], d[2])
                if self.prove_ge0(i.sub(a)) and self.prove_ge0(L(b).sub(i)):
                    l = l.sub(Lin(0, ((s, k),))).add(i.scale(k))
        return l

    def prove_ne0(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c != 0
        for n in self.ne:
            m = self.norm(n)
            if m == l or m == l.neg():
                return True
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1 and l.c % g:
            return True
        return self.prove_ge0(l.sub(1)) or self.prove_ge0(l.neg().sub(1))

    def relevant(self, l, depth=6, limit=110):
        if HARD:
            depth, limit = 40, 700
        seen = set(l.syms())
        out = []
        work = list(seen)
        used = set()
        idx = {}
        allc = self.cons
        for i, c in enumerate(allc):
            c = self.norm(c)
            for s in c.syms():
                idx.setdefault(s, []).append((i, c))
        for d in self.bnd:
            # a bounded quotient says something about what was divided
            if (HARD or SYM[d].d[0] in ("div", "rem")) and d not in self.sub:
                for j, c in enumerate(SYM[d].cons):
                    c = self.norm(c)
                    for s in c.syms():
                        if s != d:
                            idx.setdefault(s, []).append((("q", d, j), c))
        for _ in range(depth):
            nxt = []
            for s in work:
                for c in SYM[s].cons:
                    cc = self.norm(c)
                    if ("d", s, cc) not in used:
                        used.add(("d", s, cc))
                        out.append(cc)
                        for x in cc.syms():
                            if x not in seen:
                                seen.add(x)
                                nxt.append(x)
                for i, c in idx.get(s, ()):
                    if i not in used:
                        used.add(i)
                        out.append(c)
                        for x in c.syms():
                            if x not in seen:
                                seen.add(x)
                                nxt.append(x)
            work = nxt
            if not work or len(out) > limit:
                break
        return out, seen

    def _fm_infeasible(self, extra):
        cons, syms = self.relevant(extra)
        cs = [(c.c, dict(c.t)) for c in cons if c.t]
        cs.append((extra.c, dict(extra.t)))
        for s in syms:
            lo, hi = self.sbound(s)
            if lo is not None:
                cs.append((-lo, {s: 1}))
            if hi is not None:
                cs.append((hi, {s: -1}))
        return fm(cs)

    # -- assuming -------------------------------------------------------------
    def assume_ge0(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c < 0:
                self.dead = True
            return
        lo, hi = self.interval(l)
        if lo is not None and lo >= 0:
            return
        if hi is not None and hi < 0:
            self.dead = True
            return
        if self.prove_ge0(l.neg().sub(1)):
            self.dead = True
            return
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1:
            l = Lin(l.c // g, tuple((s, k // g) for s, k in l.t))
        if len(l.t) == 1:
            s, k = l.t[0]
            a, b = self.bnd.get(s, (None, None))
            if k > 0:   # s >= -c
                v = -l.c
                if a is None or v > a:
                    a = v
            else:
                v = l.c
                if b is None or v < b:
                    b = v
            self.bnd[s] = (a, b)
            self.touch()
            self._bitfacts_bound(s)
            x, y = self.sbound(s)
            if x is not None and y is not None:
                if x > y:
                    self.dead = True
                    return
                if x == y:
                    self._solve(s, L(x))
        else:
            if l in self.cons:
                return
            # equality l == 0 ?
            if self.prove_ge0(l.neg()):
                self._eq(l)
            else:
                self.cons.append(l)
                self.touch()
        if self.ne and not self.dead:
            self._retry_ne()

    def _bitfacts_bound(self, s):
        d = SYM[s].d
        if d[0] == "bits" and SYM[s].cons:
            # what the bound means for the value the bits come from
            for c in SYM[s].cons:
                if len(c.t) == 2:
                    for (x, k), (y, j) in ((c.t[0], c.t[1]), (c.t[1], c.t[0])):
                        if y == s and k == 1 and x not in self.sub:
                            lo, hi = self.sbound(s)
                            # x >= -c - j*y
                            m = (lo if j < 0 else hi)
                            if m is not None:
                                v = -c.c - j * m
                                a = self.sbound(x)
                                if a[0] is None or v > a[0]:
                                    o = self.bnd.get(x, (None, None))
                                    self.bnd[x] = (v, o[1])
                                    self.touch()
        if d[0] == "bits" and not d[2]:
            lo, hi = self.sbound(s)
            if lo == 0 or lo is None or lo >= 0:
                n = hi.bit_length() if hi is not None else None
                if n is not None:
                    for i in range(n, d[1]):
                        self._setbit(d[3][i], 0)
                # bits the bounds decide, from the most significant one down
                bits = list(self.nbits(d[3]))
                for i in range(d[1] - 1, -1, -1):
                    if bits[i] in (0, 1):
                        continue
                    if lo is None:
                        break
                    most = sum(1 << j for j in range(d[1]) if j != i and bits[j] != 0)
                    least = sum(1 << j for j in range(d[1]) if j == i or bits[j] == 1)
                    if lo > most:
                        self._setbit(bits[i], 1)
                        bits[i] = 1
                    elif hi is not None and hi < least:
                        self._setbit(bits[i], 0)
                        bits[i] = 0
                    else:
                        break

    def _setbit(self, b, v):
        if b not in (0, 1):
            b = self.nbits((b,))[0]
        if b in (0, 1):
            if b != v:
                self.dead = True
            return
        c, at = b
        if len(at) > 1:
            # a xor of several bits is known: eliminate one of them (not a sign bit if there is a choice)
            a = min(at)
            rest = at - {a}
            self.bits[a] = (c ^ v, rest)
            self.touch()
            return
        if len(at) == 1:
            (a,) = at
            s, i = a
            old = self.bits.get(a)
            if old is not None:
                if old != (v ^ c):
                    self.dead = True
                return
            self.bits[a] = v ^ c
            self.touch()
            # a cleared top part bounds the symbol itself
            if (v ^ c) == 0:
                lo, hi = self.sbound(s)
                if lo is not None and lo >= 0 and hi is not None:
                    n = hi.bit_length()
                    while n > 0 and self.bits.get((s, n - 1)) == 0:
                        n -= 1
                    if (1 << n) - 1 < hi:
                        x = self.bnd.get(s, (None, None))
                        self.bnd[s] = (x[0], (1 << n) - 1)
                elif lo is not None and lo < 0 and hi is not None and hi.bit_length() == i:
                    # sign bit clear
                    x = self.bnd.get(s, (None, None))
                    self.bnd[s] = (max(0, x[0]) if x[0] is not None else 0, x[1])
            else:
                lo, hi = self.sbound(s)
                if lo is not None and lo < 0 and hi is not None and hi.bit_length() == i:
                    x = self.bnd.get(s, (None, None))
                    self.bnd[s] = (x[0], -1)
                elif lo is not None and lo >= 0 and lo < (1 << i):
                    x = self.bnd.get(s, (None, None))
                    self.bnd[s] = (1 << i, x[1])
                    if hi is not None and hi < (1 << i):
                        self.dead = True

    def _retry_ne(self):
        todo = self.ne
        self.ne = []
        for n in todo:
            self.assume_ne0(n)
            if self.dead:
                return

    def _solve(self, s, l):
        """Records s == l (l does not contain s)."""
        if s in self.sub:
            return
        d = SYM[s].d
        if d[0] == "bits" and not l.t:
            v = l.c & ((1 << d[1]) - 1)
            for i in range(d[1]):
                self._setbit(d[3][i], (v >> i) & 1)
        self.sub[s] = l
        lo, hi = self.sbound(s)
        self.touch()
        if lo is not None:
            self.assume_ge0(l.sub(lo))
        if hi is not None and not self.dead:
            self.assume_ge0(L(hi).sub(l))
        # constraints mentioning s become constraints over l
        keep = []
        redo = []
        for c in self.cons:
            if any(x == s for x, _ in c.t):
                redo.append(c)
            else:
                keep.append(c)
        if redo:
            self.cons = keep
            self.touch()
            for c in redo:
                if not self.dead:
                    self.assume_ge0(self.norm(c))
        if SYM[s].cons:
            for c in SYM[s].cons:
                c = self.norm(c)
                if not c.t and c.c < 0:
                    self.dead = True
                elif d[0] in ("div", "rem") and not self.dead:
                    self.assume_ge0(c)

    def _eq(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c != 0:
                self.dead = True
            return
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1:
            if l.c % g:
                self.dead = True
                return
            l = Lin(l.c // g, tuple((s, k // g) for s, k in l.t))
        # prefer eliminating the newest plain symbol with a unit coefficient
        best = None
        for s, k in l.t:
            if abs(k) == 1 and s not in self.sub:
                d = SYM[s].d
                rank = (1 if d[0] == "var" else 0, s)
                if self._occurs(s, l):
                    continue
                if best is None or rank > best[0]:
                    best = (rank, s, k)
        if best is None:
            for x in (l, l.neg()):
                if x not in self.cons:
                    self.cons.append(x)
            self.touch()
            return
        _, s, k = best
        rest = l.sub(Lin(0, ((s, k),)))
        self._solve(s, rest.scale(-k))

    def _occurs(self, s, l):
        """Does s occur inside the definition of another symbol of l?"""
        for x, _ in l.t:
            if x != s and _deps(x, s):
                return True
        return False

    def assume_eq0(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c:
                self.dead = True
            return
        if self.prove_ne0(l):
            self.dead = True
            return
        self._eq(l)
        if self.ne and not self.dead:
            self._retry_ne()

    def assume_ne0(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c == 0:
                self.dead = True
            return
        if self.prove_ge0(l):
            if self.prove_ge0(l.neg()):
                self.dead = True
                return
            self.assume_ge0(l.sub(1))
            return
        if self.prove_ge0(l.neg()):
            self.assume_ge0(l.neg().sub(1))
            return
        if l not in self.ne:
            self.ne.append(l)
            self._cache = {}
        # a single-bit symbol
        if len(l.t) == 1:
            s = l.t[0][0]
            lo, hi = self.sbound(s)
            d = SYM[s].d
            if d[0] == "bits":
                var = [b for b in d[3] if b not in (0, 1)]
                if len(var) == 1 and abs(l.t[0][1]) == 1:
                    i = [j for j, b in enumerate(d[3]) if b not in (0, 1)][0]
                    base = sum((b << j) for j, b in enumerate(d[3]) if b in (0, 1))
                    v = -l.c * l.t[0][1]
                    if v == base:
                        self._setbit(d[3][i], 1)
                    elif v == base + (1 << i):
                        self._setbit(d[3][i], 0)


_depmemo = {}


def _deps(x, s):
    """Does symbol x's definition mention symbol s?"""
    key = (x, s)
    r = _depmemo.get(key)
    if r is not None:
        return r
    r = False
    for a in SYM[x].d[1:]:
        if isinstance(a, Lin):
            for y, _ in a.t:
                if y == s or _deps(y, s):
                    r = True
        elif isinstance(a, tuple) and SYM[x].d[0] == "bits":
            for b in a:
                if b not in (0, 1):
                    for y, _i in b[1]:
                        if y == s or _deps(y, s):
                            r = True
    _depmemo[key] = r
    return r


def fm(cs, limit=260, steps=60):
    """True if the conjunction of (const, {sym: coef}) >= 0 has no integer solution (as far as FM can tell)."""
    if HARD:
        limit, steps = 2000, 400

    # normalise
    def nz(c, d):
        g = 0
        for k in d.values():
            g = gcd(g, k)
        if g > 1:
            return (c // g, {s: k // g for s, k in d.items()})
        return (c, d)
    cur = {}
    for c, d in cs:
        if not d:
            if c < 0:
                return True
            continue
        c, d = nz(c, d)
        key = tuple(sorted(d.items()))
        if key not in cur or cur[key] > c:
            cur[key] = c
    for _ in range(steps):
        if not cur:
            return False
        # contradiction between opposite constraints / equality substitution
        eqv = None
        for key, c in cur.items():
            nk = tuple((s, -k) for s, k in key)
            o = cur.get(nk)
            if o is not None:
                if c + o < 0:
                    return True
                if c + o == 0 and eqv is None:
                    for s, k in key:
                        if abs(k) == 1:
                            eqv = (s, k, key, c)
                            break
        if eqv is not None:
            s, k, key, c = eqv
            # s = -(c + rest)/k
            new = {}
            for k2, c2 in cur.items():
                d = dict(k2)
                m = d.get(s)
                if m is None:
                    cc, dd = c2, k2
                    if dd not in new or new[dd] > cc:
                        new[dd] = cc
                    continue
                # add (-m*k) * eq
                f = -m * k
                for s3, k3 in key:
                    v = d.get(s3, 0) + f * k3
                    if v:
                        d[s3] = v
                    else:
                        d.pop(s3, None)
                cc = c2 + f * c
                if not d:
                    if cc < 0:
                        return True
                    continue
                cc, d = nz(cc, d)
                kk = tuple(sorted(d.items()))
                if kk not in new or new[kk] > cc:
                    new[kk] = cc
            cur = new
            continue
        pos, neg = {}, {}
        for key in cur:
            for s, k in key:
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        best = None
        for s in set(pos) | set(neg):
            a, b = pos.get(s, 0), neg.get(s, 0)
            cost = a * b - a - b
            if best is None or cost < best[0]:
                best = (cost, s)
        s = best[1]
        if len(cur) + best[0] > limit:
            return False
        P, N, new = [], [], {}
        for key, c in cur.items():
            k = dict(key).get(s)
            if k is None:
                if key not in new or new[key] > c:
                    new[key] = c
            elif k > 0:
                P.append((key, c, k))
            else:
                N.append((key, c, -k))
        for kp, cp, a in P:
            for kn, cn, b in N:
                g = gcd(a, b)
                fa, fb = b // g, a // g
                d = {}
                for x, v in kp:
                    d[x] = v * fa
                for x, v in kn:
                    w = d.get(x, 0) + v * fb
                    if w:
                        d[x] = w
                    else:
                        d.pop(x, None)
                c = cp * fa + cn * fb
                d.pop(s, None)
                if not d:
                    if c < 0:
                        return True
                    continue
                c, d = nz(c, d)
                kk = tuple(sorted(d.items()))
                if kk not in new or new[kk] > c:
                    new[kk] = c
        cur = new
    return False


# ------------------------------------------------------------------------------------------
def rangeof(w, signed):
    if signed:
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    return 0, (1 << w) - 1


ONWRAP = None   # told whenever arithmetic may really wrap around


def wrap(f, w, signed, l):
    """l mod 2^w, as a value of the given type."""
    l = f.norm(l)
    lo, hi = rangeof(w, signed)
    m = 1 << w
    if not l.t:
        v = l.c % m
        if signed and v > hi:
            v -= m
        return L(v)
    if f.prove_ge0(l.sub(lo)) and f.prove_ge0(L(hi).sub(l)):
        return l
    s1 = l.single()
    if s1 is not None and SYM[s1].d[0] == "bits":
        return from_bits(f, _sym_bits(f, s1, w), w, signed)
    # expand inner wraps (congruent mod 2^w)
    ch = True
    while ch:
        ch = False
        for s, k in l.t:
            d = SYM[s].d
            if d[0] == "wrap" and d[1] >= w:
                l = l.sub(Lin(0, ((s, k),))).add(d[3].scale(k))
                ch = True
                break
    t = []
    for s, k in l.t:
        k %= m
        if k > m // 2:
            k -= m
        if k:
            t.append((s, k))
    c = l.c % m
    if c > m // 2:
        c -= m
    l = f.norm(Lin(c, tuple(t)))
    if not l.t:
        return wrap(f, w, signed, l)
    if f.prove_ge0(l.sub(lo)) and f.prove_ge0(L(hi).sub(l)):
        return l
    if ONWRAP is not None:
        ONWRAP(l)
    return S(sym(("wrap", w, signed, l), lo, hi))


def to_bits(f, l, w):
    """Bit forms (0, 1 or (const, frozenset of (sym, i))) of l mod 2^w, least significant first."""
    l = f.norm(l)
    if not l.t:
        v = l.c % (1 << w)
        return tuple((v >> i) & 1 for i in range(w))
    if l.c == 0 and len(l.t) == 1:
        s, k = l.t[0]
        if k > 0 and k & (k - 1) == 0:
            sh = k.bit_length() - 1
            b = _sym_bits(f, s, w)
            return tuple([0] * sh + list(b[:w - sh])) if sh < w else tuple([0] * w)
        if k == -1:
            lo, hi = f.sbound(s)
            if lo == 0 and hi == 1:
                b = _sym_bits(f, s, 1)[0]
                return tuple([b] * w)
    r = disjoint_bits(f, l, w)
    if r is not None:
        return r
    x = wrap(f, w, False, l)
    s = x.single()
    if s is None:
        if not x.t:
            return to_bits(f, x, w)
        s = sym(("alias", x), 0, (1 << w) - 1, lambda me: [me.sub(x), x.sub(me)])
    return _sym_bits(f, s, w)


def disjoint_bits(f, l, w):
    """The bits of a sum of parts no two of which share a bit, or None."""
    if l.c < 0 or l.c >= (1 << w):
        return None
    parts = [tuple((l.c >> i) & 1 for i in range(w))]
    for s, k in l.t:
        lo, hi = f.sbound(s)
        if not (k > 0 and k & (k - 1) == 0 and lo is not None and lo >= 0 and hi is not None):
            return None
        parts.append(to_bits(f, Lin(0, ((s, k),)), w))
    out = []
    for i in range(w):
        nz = [p[i] for p in parts if p[i] != 0]
        if len(nz) > 1:
            return None
        out.append(nz[0] if nz else 0)
    return tuple(out)


def _sym_bits(f, s, w):
    d = SYM[s].d
    if d[0] == "bits":
        b = f.nbits(d[3])
        if w <= len(b):
            return tuple(b[:w])
        ext = b[-1] if d[2] else 0
        return tuple(list(b) + [ext] * (w - len(b)))
    if d[0] == "wrap":
        i = d[3]
        if i.single() is not None and w <= d[1]:
            return to_bits(f, i, w)
        if i.single() is not None:
            b = to_bits(f, i, d[1])
            ext = b[-1] if d[2] else 0
            return tuple(list(b) + [ext] * (w - len(b)))
    lo, hi = f.sbound(s)
    if lo is None or hi is None:
        return tuple(_bit(f, s, i) for i in range(w))
    if lo >= 0:
        # leading bits on which the bounds agree are known
        n = (lo ^ hi).bit_length()
        return tuple(_bit(f, s, i) if i < n else (lo >> i) & 1 for i in range(w))
    slo, shi = SYM[s].lo, SYM[s].hi
    n = max((-slo - 1).bit_length(), shi.bit_length()) + 1
    if hi < 0:
        sign = 1
    else:
        sign = _bit(f, s, n - 1)
    return tuple(_bit(f, s, i) if i < n - 1 else sign for i in range(w))


def _bit(f, s, i):
    v = f.bits.get((s, i))
    if v is not None:
        return v if v in (0, 1) else f.nbits((v,))[0]
    return (0, frozenset(((s, i),)))


def bxor(a, b):
    if a in (0, 1):
        a = (a, frozenset())
    if b in (0, 1):
        b = (b, frozenset())
    c, s = a[0] ^ b[0], a[1] ^ b[1]
    return (c, s) if s else c


_bitops = {}


def band(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a == b:
        return a
    return _uninterp("and", a, b)


def bor(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return a
    return _uninterp("or", a, b)


def _uninterp(op, a, b):
    key = (op,) + tuple(sorted((repr(a), repr(b))))
    s = sym(("bitop", key), 0, 1)
    return (0, frozenset(((s, 0),)))


def from_bits(f, bits, w, signed):
    bits = tuple(bits)
    assert len(bits) == w
    if all(b in (0, 1) for b in bits):
        v = sum(b << i for i, b in enumerate(bits))
        if signed and bits[-1] == 1:
            v -= 1 << w
        return L(v)
    # exactly the bits of one symbol?
    n = w
    while n > 0 and bits[n - 1] == 0:
        n -= 1
    b0 = bits[0]
    if b0 not in (0, 1) and len(b0[1]) == 1:
        (a,) = b0[1]
        s = a[0]
        if a[1] == 0 and b0[0] == 0:
            full = _sym_bits(f, s, w)
            if full == bits:
                lo, hi = f.sbound(s)
                rl, rh = rangeof(w, signed)
                if lo is not None and hi is not None and lo >= rl and hi <= rh:
                    return S(s)
                return wrap(f, w, signed, S(s))
    lo = sum((1 << i) for i, b in enumerate(bits) if b == 1)
    hi = sum((1 << i) for i, b in enumerate(bits) if b != 0)
    if signed:
        if bits[-1] == 0:
            pass
        elif bits[-1] == 1:
            lo -= 1 << w
            hi -= 1 << w
        else:
            hi -= 1 << (w - 1)
            lo -= 1 << (w - 1)
    src = set()
    shift = None
    lowmask = True
    for i, b in enumerate(bits):
        if b in (0, 1):
            continue
        if b[0] or len(b[1]) != 1:
            src = None
            break
        (a,) = b[1]
        src.add(a[0])
        if shift is None:
            shift = a[1] - i
        elif shift != a[1] - i:
            shift = "x"
    def cons(me):
        out = []
        if src and len(src) == 1 and not signed and bits[-1] != 1 and shift != "x":
            (s,) = src
            sl = SYM[s].lo
            if sl is not None and sl >= 0:
                x = S(s)
                nb = SYM[s].hi.bit_length() if SYM[s].hi is not None else None
                if all(b != 1 for b in bits):
                    if shift >= 0:
                        out.append(x.sub(me.scale(1 << shift)))
                        # the complete upper part: quotient
                        if nb is not None and all((bits[i] != 0) for i in range(min(w, nb - shift))):
                            out.append(me.scale(1 << shift).add((1 << shift) - 1).sub(x))
                        elif shift == 0:
                            pass
        return out
    # canonical key: independent of facts
    me = S(sym(("bits", w, signed, bits), lo, hi, cons))
    if src and len(src) == 1 and not signed and shift != "x" and shift is not None and shift >= 0 and all(b != 1 for b in bits):
        (s,) = src
        lo, hi = f.sbound(s)
        if lo is not None and lo >= 0 and hi is not None and SYM[s].hi is not None and hi < SYM[s].hi:
            nb = max(hi.bit_length() - shift, 0)
            if all(bits[i] != 0 for i in range(min(w, nb))) and w >= nb:
                # here the bits above are known to be clear: the quotient bounds the value
                c = me.scale(1 << shift).add((1 << shift) - 1).sub(S(s))
                if c not in f.cons:
                    f.cons.append(c)
                    f.touch()
    return me


def rebuild(f, k, args, old):
    if k == "div":
        return mk_div(f, args[0], args[1])
    if k == "mul":
        return mk_mul(f, args[0], args[1])
    if k == "rem":
        return mk_rem(f, args[0], args[1])
    return S(sym((k,) + args, old.lo, old.hi))


def mk_mul(f, a, b):
    a, b = f.norm(a), f.norm(b)
    if not a.t:
        return b.scale(a.c)
    if not b.t:
        return a.scale(b.c)
    if repr(b) < repr(a):
        a, b = b, a
    x, y = f.interval(a)
    z, w = f.interval(b)
    lo = hi = None
    if None not in (x, y, z, w):
        ps = [x * z, x * w, y * z, y * w]
        lo, hi = min(ps), max(ps)
    elif x is not None and z is not None and x >= 0 and z >= 0:
        lo = x * z
    key = ("mul", a, b)
    if key in _BYDEF:
        return S(_BYDEF[key].id)
    return S(sym(key, lo, hi))


def mk_div(f, a, b):
    """a / b for a >= 0, b > 0."""
    a, b = f.norm(a), f.norm(b)
    if not b.t:
        if b.c == 1:
            return a
        if not a.t:
            return L(a.c // b.c)
        k = b.c
        g = 0
        for _, c in a.t:
            g = gcd(g, c)
        if g % k == 0 and a.c % k == 0:
            return Lin(a.c // k, tuple((s, c // k) for s, c in a.t))
        lo, hi = f.interval(a)
        return S(sym(("div", a, b), 0, None if hi is None else max(hi, 0) // k,
                     lambda me: [a.sub(me.scale(k)), me.scale(k).add(k - 1).sub(a)]))
    return S(sym(("div", a, b), 0, None, lambda me: [a.sub(me)]))


def mk_rem(f, a, b):
    a, b = f.norm(a), f.norm(b)
    if not b.t:
        return a.sub(mk_div(f, a, b).scale(b.c))
    return S(sym(("rem", a, b), 0, None, lambda me: [b.sub(1).sub(me), a.sub(me)]))

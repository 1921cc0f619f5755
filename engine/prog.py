"""Loads the dumped, type-checked program (MIR) of the smdiff library crates.

Types are interned globally (across crates), functions are indexed by their crate-qualified path.
Nothing in here runs code of the analysed program.
"""
import json, os, re

LIBS = ["smdiff_common", "smdiff_reader", "smdiff_writer", "smdiff_decoder", "smdiff_encoder",
        "smdiff_merger", "smdiff_vcdiff"]

INT_RANGE = {}
for _w in (8, 16, 32, 64, 128):
    INT_RANGE["u%d" % _w] = (0, (1 << _w) - 1, _w, False)
    INT_RANGE["i%d" % _w] = (-(1 << (_w - 1)), (1 << (_w - 1)) - 1, _w, True)
INT_RANGE["usize"] = INT_RANGE["u64"]
INT_RANGE["isize"] = INT_RANGE["i64"]


class Ty:
    """An interned type."""
    __slots__ = ("k", "name", "args", "t", "mut", "path", "len", "id", "_params", "s")
    _tab = {}

    def __init__(self):
        pass

    def __repr__(self):
        return self.s

    def is_int(self):
        return self.k == "int" or self.k == "char"

    def rng(self):
        if self.k == "char":
            return (0, 0x10FFFF, 32, False)
        return INT_RANGE[self.name]

    def has_params(self):
        return self._params


def mkty(k, name=None, args=(), t=None, mut=False, path=None, ln=None):
    key = (k, name, args, t, mut, path, ln)
    r = Ty._tab.get(key)
    if r is not None:
        return r
    r = Ty()
    r.k, r.name, r.args, r.t, r.mut, r.path, r.len = k, name, args, t, mut, path, ln
    r.id = len(Ty._tab)
    p = k in ("param", "alias")
    if t is not None and t._params:
        p = True
    for a in args:
        if isinstance(a, Ty) and a._params:
            p = True
    if isinstance(ln, str):
        p = True
    r._params = p
    r.s = _show(r)
    Ty._tab[key] = r
    return r


def _show(t):
    k = t.k
    if k == "int" or k == "float":
        return t.name
    if k == "ref":
        return "&" + ("mut " if t.mut else "") + t.t.s
    if k == "ptr":
        return "*" + ("mut " if t.mut else "const ") + t.t.s
    if k == "slice":
        return "[%s]" % t.t.s
    if k == "array":
        return "[%s; %s]" % (t.t.s, t.len)
    if k == "tuple":
        return "(" + ", ".join(a.s for a in t.args) + ")"
    if k == "adt" or k == "fndef" or k == "closure" or k == "alias":
        return t.path + ("<" + ", ".join(str(a) for a in t.args) + ">" if t.args else "")
    if k == "param":
        return t.name
    return k


UNIT = mkty("tuple")
BOOL = mkty("bool")
U8 = mkty("int", "u8")
U16 = mkty("int", "u16")
U32 = mkty("int", "u32")
U64 = mkty("int", "u64")
I64 = mkty("int", "i64")
USIZE = mkty("int", "usize")
STR = mkty("str")
OTHER = mkty("other")


class Crate:
    pass


class Fn:
    __slots__ = ("path", "kind", "generics", "argc", "locals", "names", "blocks", "sp", "exported",
                 "crate", "spread", "raw", "_loops", "_names")

    def __repr__(self):
        return "Fn(%s)" % self.path

    def args_ty(self):
        return self.locals[1:self.argc + 1]


class Adt:
    __slots__ = ("path", "kind", "full", "variants", "generics", "local")


class Program:
    def __init__(self, dump_dir, crates=LIBS):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.unsafe = []
        self.statics = []
        self.crates = []
        self._subst_memo = {}
        for c in crates:
            p = os.path.join(dump_dir, c + "-lib.json")
            if not os.path.exists(p):
                continue
            self._load(c, json.loads(re.sub(r'"(smdiff_\w+)::(<[^"]*)"', lambda m: '"%s::%s"' % (m.group(1), m.group(2).replace(m.group(1) + "::", "")), open(p).read())))
            self.crates.append(c)
        self.by_trait_item = {}
        for im in self.impls:
            for ti, it in im["items"]:
                if ti:
                    self.by_trait_item.setdefault(ti, []).append((im, it))

    # -- loading -----------------------------------------------------------------
    def _load(self, crate, j):
        raw = j["types"]
        tys = [None] * len(raw)

        def conv(i):
            if tys[i] is not None:
                return tys[i]
            o = raw[i]
            k = o["k"]

            def ga(x):
                if isinstance(x, dict):
                    return x.get("const", x.get("constp"))
                return conv(x)
            if k == "int" or k == "float":
                r = mkty(k, o["n"])
            elif k in ("ref", "ptr"):
                r = mkty(k, t=conv(o["t"]), mut=o["mut"])
            elif k == "slice":
                r = mkty(k, t=conv(o["t"]))
            elif k == "array":
                l = o["len"]
                r = mkty(k, t=conv(o["t"]), ln=l.get("const", l.get("constp")))
            elif k == "tuple":
                r = mkty(k, args=tuple(conv(x) for x in o["ts"]))
            elif k == "adt":
                r = mkty(k, path=o["path"], args=tuple(ga(x) for x in o["args"]))
            elif k == "param":
                r = mkty(k, o["name"])
            elif k == "closure":
                r = mkty(k, path=o["path"], args=tuple(conv(x) for x in o["up"]))
            elif k == "fndef":
                r = mkty(k, path=o["path"], args=tuple(ga(x) for x in o["args"]))
            elif k == "dyn":
                r = mkty(k, path=o.get("trait"))
            elif k == "alias":
                r = mkty(k, path=o["path"], args=tuple(ga(x) for x in o["args"]))
            elif k in ("bool", "char", "str", "never", "fnptr"):
                r = mkty(k)
            else:
                r = mkty("other", o.get("s"))
            tys[i] = r
            return r
        for i in range(len(raw)):
            conv(i)

        def fix_place(p):
            return (p[0], tuple(self._proj(e) for e in p[1]), tys[p[2]])

        def fix_const(c):
            r = dict(c)
            r["ty"] = tys[c["ty"]]
            if "args" in c:
                r["args"] = [x.get("const", x.get("constp")) if isinstance(x, dict) else tys[x] for x in c["args"]]
            return r

        def fix_op(o):
            if "copy" in o:
                return ("copy", fix_place(o["copy"]))
            if "move" in o:
                return ("move", fix_place(o["move"]))
            if "const" in o:
                return ("const", fix_const(o["const"]))
            return ("runtime", o.get("runtime"))

        def fix_args(a):
            return [x.get("const", x.get("constp")) if isinstance(x, dict) else tys[x] for x in a]

        def fix_rv(r):
            if "use" in r:
                return ("use", fix_op(r["use"]))
            if "repeat" in r:
                return ("repeat", fix_op(r["repeat"]), r["n"].get("const", r["n"].get("constp")))
            if "ref" in r:
                return ("ref", fix_place(r["ref"]), r["mut"])
            if "rawptr" in r:
                return ("rawptr", fix_place(r["rawptr"]))
            if "cast" in r:
                return ("cast", fix_op(r["cast"]), r["kind"], tys[r["from"]], tys[r["to"]])
            if "bin" in r:
                return ("bin", r["bin"], fix_op(r["a"]), fix_op(r["b"]), tys[r["ty"]])
            if "un" in r:
                return ("un", r["un"], fix_op(r["a"]), tys[r["ty"]])
            if "discr" in r:
                return ("discr", fix_place(r["discr"]))
            if "agg" in r:
                ops = [fix_op(x) for x in r["ops"]]
                k = r["agg"]
                if k == "array":
                    return ("agg", "array", tys[r["ty"]], ops)
                if k == "tuple":
                    return ("agg", "tuple", None, ops)
                if k == "adt":
                    return ("agg", "adt", (r["path"], r["variant"], tuple(fix_args(r["args"])), r.get("union_field")), ops)
                if k == "closure":
                    return ("agg", "closure", tys[r["ty"]], ops)
                return ("agg", "other", r.get("what"), ops)
            return ("other", str(r)[:200])

        def fix_callee(f):
            if "ptr" in f:
                return {"ptr": fix_op(f["ptr"])}
            r = dict(f)
            r["args"] = fix_args(f["args"])
            if "self" in f:
                r["self"] = tys[f["self"]]
            if "res_args" in f:
                r["res_args"] = fix_args(f["res_args"])
            return r

        for f in j["fns"]:
            o = Fn()
            o.path, o.kind, o.generics, o.argc = f["path"], f["kind"], f["generics"], f["argc"]
            o.locals = [tys[i] for i in f["locals"]]
            o.names = [(n, fix_place(p)) for n, p in f["names"]]
            o.sp, o.exported, o.crate, o.spread = f["sp"], f["exported"], crate, f["spread"]
            o._loops = None
            bl = []
            for b in f["blocks"]:
                st = []
                for s in b["s"]:
                    if "a" in s:
                        st.append(("assign", fix_place(s["a"]), fix_rv(s["r"]), s["sp"]))
                    elif "setd" in s:
                        st.append(("setd", fix_place(s["setd"]), s["v"], None))
                    else:
                        st.append(("intr", s["intr"], None, None))
                t = dict(b["t"])
                if t["t"] == "switch":
                    t["on"] = fix_op(t["on"])
                    t["ty"] = tys[t["ty"]]
                elif t["t"] == "call":
                    t["f"] = fix_callee(t["f"])
                    t["args"] = [fix_op(x) for x in t["args"]]
                    t["dest"] = fix_place(t["dest"])
                elif t["t"] == "drop":
                    t["p"] = fix_place(t["p"])
                elif t["t"] == "assert":
                    t["cond"] = fix_op(t["cond"])
                    t["mops"] = [fix_op(x) for x in t["mops"]]
                bl.append((st, t, b["cleanup"]))
            o.blocks = bl
            self.fns[o.path] = o
        for a in j["adts"]:
            if a["path"] in self.adts and self.adts[a["path"]].full:
                continue
            o = Adt()
            o.path, o.kind, o.full, o.generics, o.local = a["path"], a["kind"], a["full"], a["generics"], a["local"]
            o.variants = [(v["name"], v["discr"], [(x["name"], tys[x["ty"]], x["pub"]) for x in v["fields"]]) for v in a["variants"]]
            self.adts[o.path] = o
        for im in j["impls"]:
            self.impls.append({"trait": im["trait"], "self": tys[im["self"]], "items": im["items"],
                               "targs": [x.get("const", x.get("constp")) if isinstance(x, dict) else tys[x] for x in (im["trait_args"] or [])],
                               "generics": im["generics"], "crate": crate})
        for u in j["unsafe"]:
            self.unsafe.append((crate, u["what"], u["sp"]))
        for st in j["statics"]:
            self.statics.append((crate, st["path"], st["mut"], st["sp"]))

    @staticmethod
    def _proj(e):
        if isinstance(e, dict):
            if "i" in e:
                return ("i", e["i"])
            if "ci" in e:
                return ("ci", e["ci"], e["min"], e["end"])
            if "from" in e:
                return ("sub", e["from"], e["to"], e["end"])
            if "v" in e:
                return ("v", e["v"])
        return e

    # -- types -------------------------------------------------------------------
    def subst(self, t, env):
        """Replaces type parameters by `env` (name -> Ty)."""
        if not isinstance(t, Ty):
            if isinstance(t, str) and t in env:
                return env[t]
            return t
        if not t._params or not env:
            return t
        if t.k == "param":
            return env.get(t.name, t)
        if t.k == "alias":
            r = mkty("alias", path=t.path, args=tuple(self.subst(a, env) for a in t.args))
            return self.norm_alias(r)
        args = tuple(self.subst(a, env) for a in t.args)
        tt = self.subst(t.t, env) if t.t is not None else None
        ln = env.get(t.len, t.len) if isinstance(t.len, str) else t.len
        return mkty(t.k, t.name, args, tt, t.mut, t.path, ln)

    def norm_alias(self, t):
        if t.path.endswith("::Iterator::Item") or t.path.endswith("::IntoIterator::Item"):
            a = t.args[0]
            r = self.iter_item(a)
            if r is not None:
                return r
        return t

    def iter_item(self, a):
        if a.k == "adt":
            p = a.path
            if p.endswith("::Range") or p.endswith("::RangeInclusive") or p.endswith("vec::IntoIter") or p.endswith("::Vec"):
                return a.args[0]
            if p.endswith("slice::iter::Iter") or p.endswith("slice::Iter"):
                return mkty("ref", t=a.args[0])
        if a.k == "ref" and a.t.k == "slice":
            return mkty("ref", t=a.t.t, mut=a.mut)
        return None

    def unify(self, pat, t, env):
        if not isinstance(pat, Ty) or not isinstance(t, Ty):
            return pat == t or (isinstance(pat, str))
        if pat.k == "param":
            if pat.name in env:
                return env[pat.name] is t
            env[pat.name] = t
            return True
        if not pat._params:
            return pat is t
        if pat.k != t.k or pat.path != t.path or pat.name != t.name or pat.mut != t.mut or len(pat.args) != len(t.args):
            return False
        if pat.k == "array" and isinstance(pat.len, int) and pat.len != t.len:
            return False
        for x, y in zip(pat.args, t.args):
            if not self.unify(x, y, env):
                return False
        if pat.t is not None:
            return t.t is not None and self.unify(pat.t, t.t, env)
        return True

    def resolve_impl(self, trait_item, self_ty):
        """(fn path, env) of the workspace impl of a trait method for a concrete type, or None."""
        for im, it in self.by_trait_item.get(trait_item, []):
            env = {}
            if self.unify(im["self"], self_ty, env):
                return it, env
        return None

    def adt_fields(self, ty, variant):
        """Field types of an adt type's variant (substituted)."""
        a = self.adts.get(ty.path)
        if a is None or not a.full:
            return None
        env = dict(zip(a.generics, ty.args))
        return [self.subst(ft, env) for (_n, ft, _p) in a.variants[variant][2]]

    def fname(self, path, variant, i):
        a = self.adts.get(path)
        return a.variants[variant][2][i][0]

    # -- loops --------------------------------------------------------------------
    def succs(self, fn, b):
        st, t, cl = fn.blocks[b]
        k = t["t"]
        if k == "goto" or k == "drop" or k == "assert":
            return [t["to"]]
        if k == "switch":
            return [x[1] for x in t["cases"]] + [t["other"]]
        if k == "call":
            return [t["to"]] if t["to"] is not None else []
        return []

    def loops(self, fn):
        """loop head -> set of blocks in the natural loop; {} for irreducible-free MIR."""
        if fn._loops is not None:
            return fn._loops
        n = len(fn.blocks)
        succ = [self.succs(fn, b) for b in range(n)]
        pred = [[] for _ in range(n)]
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        for b in order:
            for s in succ[b]:
                pred[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
        fn._loops = loops
        return loops

    # -- liveness -------------------------------------------------------------------
    def live_at(self, fn, block):
        """Locals whose value at the entry of the block may still be used (address-taken locals always are)."""
        key = fn.path
        memo = getattr(self, "_live", None)
        if memo is None:
            memo = self._live = {}
        r = memo.get(key)
        if r is None:
            r = memo[key] = self._liveness(fn)
        return r[block]

    def _liveness(self, fn):
        n = len(fn.blocks)
        taken = {0}
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]

        def place_use(b, pl, store=False):
            local, projs, _ = pl
            for e in projs:
                if isinstance(e, tuple) and e[0] == "i" and e[1] not in dfn[b]:
                    use[b].add(e[1])
            if store and not projs:
                dfn[b].add(local)
                return
            if local not in dfn[b]:
                use[b].add(local)

        def op_use(b, o):
            if o[0] in ("copy", "move"):
                place_use(b, o[1])
        for b in range(n):
            stmts, t, _ = fn.blocks[b]
            for s in stmts:
                if s[0] == "assign":
                    rv = s[2]
                    k = rv[0]
                    if k in ("ref", "rawptr"):
                        place_use(b, rv[1])
                        if "*" not in rv[1][1]:
                            taken.add(rv[1][0])
                    elif k == "discr":
                        place_use(b, rv[1])
                    elif k in ("use", "repeat", "cast"):
                        op_use(b, rv[1])
                    elif k == "bin":
                        op_use(b, rv[2])
                        op_use(b, rv[3])
                    elif k == "un":
                        op_use(b, rv[2])
                    elif k == "agg":
                        for o in rv[3]:
                            op_use(b, o)
                    place_use(b, s[1], True)
                elif s[0] == "setd":
                    place_use(b, s[1])
            k = t["t"]
            if k == "switch":
                op_use(b, t["on"])
            elif k == "assert":
                op_use(b, t["cond"])
                for o in t["mops"]:
                    op_use(b, o)
            elif k == "drop":
                pass
            elif k == "call":
                if "ptr" in t["f"]:
                    op_use(b, t["f"]["ptr"])
                for o in t["args"]:
                    op_use(b, o)
                place_use(b, t["dest"], True)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in self.succs(fn, b):
                    o |= live[s]
                o -= dfn[b]
                o |= use[b]
                if o != live[b]:
                    live[b] = o
                    ch = True
        return [frozenset(x | taken) for x in live]

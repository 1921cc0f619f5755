"""Effect rules over the MIR of every library function (C01, C02, C03)."""
import os, re, shutil, subprocess, tempfile
import dump as DUMP
import prog as PG

IO = [(r"(^|::)(std|alloc|core)::.*(io::stdio|_print|_eprint|Stdout|Stderr|Stdin)\b", "prints to / reads from the process's standard streams"),
      (r"::(_print|_eprint)$", "prints to the process's standard streams"),
      (r"std::.*\bfs::", "touches the file system"), (r"<std::fs::", "touches the file system"),
      (r"std::.*\benv::", "reads or changes the process environment"), (r"<std::env::", "reads or changes the process environment"),
      (r"std::.*\bprocess::", "controls a process"), (r"<std::process::", "controls a process"),
      (r"std::.*\bthread::", "uses threads"), (r"<std::thread::", "uses threads"),
      (r"std::.*\bnet::", "uses the network"), (r"<std::net::", "uses the network"), (r"<core::net::", "uses the network"),
      (r"\bsync::atomic::", "changes shared state"), (r"std::sync::(?!Arc)", "uses shared state"), (r"<std::sync::(?!Arc)", "uses shared state"),
      (r"(^|<)libc::", "calls libc")]
TIME = re.compile(r"std::time::|core::time::|::<std::time::|::time::Instant|::time::SystemTime")
RANDOM = re.compile(r"RandomState|hash::random|getrandom|fastrand|\brand::|rand_core|process::id|thread::current|available_parallelism|backtrace")
HASHITER = re.compile(r"std::<std::collections::(?:hash_map::|hash_set::)?Hash(?:Map|Set)<.*>>::(iter|iter_mut|keys|values|values_mut|drain|into_keys|into_values|retain|extract_if)$|"
                      r"std::<&?.*std::collections::(?:hash_map::|hash_set::)?Hash(?:Map|Set)<.*as std::iter::IntoIterator>::into_iter$")


def calls(fn):
    for b in fn.blocks:
        t = b[1]
        if t["t"] == "call":
            f = t["f"]
            if "ptr" in f:
                continue
            yield t, f.get("res") or f["path"], f


def fixture(ck):
    """The rules' positive examples: a small crate that breaks each of them."""
    drv, _ = DUMP.driver()
    d = tempfile.mkdtemp(prefix="smdiff-fx-")
    try:
        e = DUMP._env()
        sysroot = DUMP.sh(["rustc", "+nightly", "--print", "sysroot"]).strip()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib") + ":" + e.get("LD_LIBRARY_PATH", "")
        e["MIRDUMP_OUT"] = d
        rc = DUMP.sh(["rustup", "which", "rustc", "--toolchain", "nightly"]).strip() if shutil.which("rustup") else "rustc"
        DUMP.sh([drv, rc, "--crate-type", "lib", "--crate-name", "effects", "--edition", "2021", "--emit", "metadata", "--out-dir", d,
                 os.path.join(DUMP.VERIF, "fixtures", "effects.rs")], env=e, cwd=d)
        return PG.Program(d, crates=("effects",))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def hidden(p):
    """[(function, callee, what, place)]"""
    out = []
    for path, fn in sorted(p.fns.items()):
        for t, callee, f in calls(fn):
            for rx, what in IO:
                if re.search(rx, callee) and not re.search(r"std::process::Termination|fmt::", callee):
                    out.append((path, callee, what, t["sp"]))
                    break
    for crate, path, mut, sp in p.statics:
        out.append((path, "static", "is global state", sp))
    return out


def uses(op, locs):
    return op[0] in ("copy", "move") and op[1][0] in locs


def nondet(p):
    out = []
    for path, fn in sorted(p.fns.items()):
        seeds = set()
        for t, callee, f in calls(fn):
            if RANDOM.search(callee):
                out.append((path, callee, "depends on a random or process-specific value", t["sp"]))
            if HASHITER.search(callee):
                out.append((path, callee, "depends on the iteration order of a randomly seeded hash table", t["sp"]))
            if TIME.search(callee):
                seeds.add(t["dest"][0])
        for st, t, cl in fn.blocks:
            for s in st:
                if s[0] == "assign" and s[2][0] == "cast" and "Expose" in str(s[2][2]):
                    out.append((path, "pointer to integer cast", "depends on an address", s[3]))
        if seeds:
            out += flow(path, fn, seeds)
    return out


def flow(path, fn, tainted):
    """Where a clock reading reaches anything that can matter."""
    out = []
    tainted = set(tainted)
    ch = True
    while ch:
        ch = False
        for st, t, cl in fn.blocks:
            for s in st:
                if s[0] == "assign" and s[1][0] not in tainted and reads(s[2], tainted):
                    tainted.add(s[1][0])
                    ch = True
            if t["t"] == "call" and any(uses(a, tainted) for a in t["args"]) and t["dest"][0] not in tainted:
                tainted.add(t["dest"][0])
                ch = True
    for st, t, cl in fn.blocks:
        if t["t"] == "switch" and uses(t["on"], tainted):
            out.append((path, "branch", "branches on a clock reading", ""))
        if t["t"] == "call" and any(uses(a, tainted) for a in t["args"]):
            c = t["f"].get("res") or t["f"].get("path", "?")
            if not TIME.search(c):
                out.append((path, c, "passes on a value derived from a clock reading", t["sp"]))
        for s in st:
            if s[0] == "assign" and s[1][0] in tainted and any(not isinstance(e, tuple) and e in ("*", "deref") for e in s[1][1]):
                out.append((path, "store", "stores a value derived from a clock reading", s[3]))
    if 0 in tainted:
        out.append((path, "return", "returns a value derived from a clock reading", ""))
    return out


def reads(rv, tainted):
    def op(o):
        return isinstance(o, tuple) and len(o) == 2 and o[0] in ("copy", "move") and o[1][0] in tainted
    def walk(x):
        if op(x):
            return True
        if isinstance(x, tuple) and x and x[0] in ("ref", "rawptr", "discr") and isinstance(x[1], tuple):
            return x[1][0] in tainted
        if isinstance(x, (tuple, list)):
            return any(walk(y) for y in x if isinstance(y, (tuple, list)))
        return False
    return walk(rv)

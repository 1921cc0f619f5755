"""C02: the libraries have no effects besides the streams and buffers they are given."""
import effects


def run(ck):
    p = ck.p
    fx = effects.fixture(ck)
    hit = {f.split("::")[-1] for f, _, _, _ in effects.hidden(fx)}
    want = {"prints", "eprints", "file", "env", "exits", "spawns", "nets", "bumps", "SHARED", "COUNTER"}
    ck.ob(want <= hit, "self-test", "the rule misses its positive examples %s" % sorted(want - hit))
    ck.fns |= set(p.fns)
    n = 0
    for path, fn in p.fns.items():
        n += sum(1 for _ in effects.calls(fn))
    ck.count("call sites", n)
    ck.floor("call sites", 500)
    for f, callee, what, sp in effects.hidden(p):
        ck.bad("effect:%s:%s" % (f, callee), "%s %s: calls %s at %s" % (f, what, callee, sp))
    ck.ok("call sites without hidden effects", n)
    return dict(rule="effect analysis over every call site of every library function (resolved callees): none reaches standard streams, files, environment, "
                     "processes, threads, network, atomics or global state", coverage={"positive_examples": sorted(hit)})

"""C03: results depend on the inputs and configuration only."""
import effects


def run(ck):
    p = ck.p
    fx = effects.fixture(ck)
    hit = {f.split("::")[-1] for f, _, _, _ in effects.nondet(fx)}
    want = {"timed", "hashed", "address"}
    ck.ob(want <= hit, "self-test", "the rule misses its positive examples %s" % sorted(want - hit))
    ck.ob("untimed" not in hit, "self-test-negative", "the rule reports a clock reading that is never used")
    ck.fns |= set(p.fns)
    n = sum(1 for fn in p.fns.values() for _ in effects.calls(fn))
    ck.count("call sites", n)
    ck.floor("call sites", 500)
    for f, callee, what, sp in effects.nondet(p):
        ck.bad("nondet:%s:%s" % (f, callee), "%s %s (%s) %s" % (f, what, callee, sp))
    for crate, path, mut, sp in p.statics:
        ck.bad("static:" + path, "global state %s can carry results from one call to the next" % path)
    ck.ok("call sites", n)
    return dict(rule="no call site reaches random, process or address derived values or hash-table iteration order; forward dataflow from every clock reading: it "
                     "reaches no branch, return value, store or call", coverage={"positive_examples": sorted(hit)})

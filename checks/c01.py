"""C01: the libraries contain no unsafe code."""
import effects


def run(ck):
    p = ck.p
    fx = effects.fixture(ck)
    ck.ob(len(fx.unsafe) >= 1, "self-test", "the rule does not find the unsafe block of its positive example")
    crates = {f.crate for f in p.fns.values()}
    ck.count("library crates", len(crates))
    ck.floor("library crates", 7)
    ck.count("functions", len(p.fns))
    ck.fns |= set(p.fns)
    for crate, what, sp in p.unsafe:
        ck.bad("unsafe:%s:%s" % (crate, what), "%s in %s at %s" % (what, crate, sp))
    for c in crates:
        ck.ok("crate:" + c)
    return dict(rule="no unsafe block, function, impl, extern item or mutable static use in the type-checked HIR of any library crate",
                coverage={"unsafe_sites": len(p.unsafe), "positive_example_sites": len(fx.unsafe)})

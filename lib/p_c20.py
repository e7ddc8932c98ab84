import core, gen_filter as g
def run(c):
    core.build("filter_driver")
    T = ("filter_driver", "FiltersTrace.tla", "FiltersTrace.cfg")
    for name in g.PARTS:
        out = c.model("FiltersDesign.tla", c.config("Filters_" + name, g.config(name, c.thorough)), timeout=1500)
        texts = c.scripts(out)
        c.conform("small_" + name, T[0], g.cases(c.rng, g.small(c.rng, texts[:c.pick(4000, 40000)])), *T[1:])
    c.conform("filters", T[0], g.cases(c.rng, g.texts(c.rng, c.pick(3000, 40000))), *T[1:])
    c.conform("soups", T[0], g.cases(c.rng, g.soups(c.rng, c.pick(3000, 40000))), *T[1:])
    c.assumptions.append("Bounds above 2^63-1 are left unspecified. Regular expressions written by the generator are matched by the specification itself; for those of mutated texts llvm::Regex is the oracle. VariableFilter.cpp is compiled with a shim for the clang installed here (DiagnosticOptions).")

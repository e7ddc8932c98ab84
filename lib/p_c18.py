import core, gen_parse
def run(c):
    core.build("ast_driver")
    T = ("ast_driver", "ParsingTrace.tla", "ParsingTrace.cfg")
    s = c.generate("GrammarGen.tla", "GrammarGen.cfg", num=c.pick(400, 3000), depth=3000, timeout=1500)
    s = [x for x in s if len(x) <= 400]
    c.conform("bytes", T[0], gen_parse.fuzz_cases(c.rng, s, c.pick(4000, 60000)), *T[1:])
    c.conform("tokens", T[0], gen_parse.parse_cases(c.rng, s, c.pick(3, 10)), *T[1:])
    c.conform("prefixes", T[0], gen_parse.prefix_cases(c.rng, s, c.pick(40, 400)), *T[1:])
    c.conform("deep", T[0], gen_parse.deep_cases(c.rng), *T[1:])
    c.assumptions.append("Texts of 0 to some thousand bytes from the grammar, token soup and random bytes; nestings of 2^17 levels and lists of 30000 elements; chains of up to 3000 operators (the parser takes quadratic time on them).")

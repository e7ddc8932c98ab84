import core, gen_parse
def run(c):
    core.build("ast_driver")
    T = ("ast_driver", "ParsingTrace.tla", "ParsingTrace.cfg")
    s = c.generate("GrammarGen.tla", "GrammarGen.cfg", num=c.pick(900, 9000), depth=3000, timeout=1500)
    s = [x for x in s if len(x) <= 400]
    c.conform("copies", T[0], gen_parse.copy_cases(c.rng, s, c.pick(2, 4)), *T[1:])

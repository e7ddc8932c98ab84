import core, gen_parse
def run(c):
    core.build("ast_driver")
    T = ("ast_driver", "ParsingTrace.tla", "ParsingTrace.cfg")
    # The grammar is unambiguous, and the recogniser reads what it derives:
    # every short string over the tokens of each of its parts.
    short = []
    for name in gen_parse.PARTS:
        out = c.model("GrammarDesign.tla", c.config("Grammar_" + name, gen_parse.part_config(name, c.thorough)), timeout=1500)
        short += gen_parse.part_sentences(name, c.scripts(out))
    # Every sentence among them parsed for real, and strings close to them.
    if not c.thorough:
        short = c.rng.sample(short, min(len(short), 1500))
    c.conform("short", T[0], gen_parse.parse_cases(c.rng, short, 1), *T[1:])
    # Sentences derived at random from the whole grammar.
    s = c.generate("GrammarGen.tla", "GrammarGen.cfg", num=c.pick(900, 12000), depth=3000, timeout=1500)
    s = [x for x in s if len(x) <= 400]
    c.conform("derived", T[0], gen_parse.parse_cases(c.rng, s, c.pick(2, 3)), *T[1:])
    c.assumptions.append("What the parser refuses although Modelica has it (connect, extends, import, redeclare, enumerations...) is outside the grammar specified; sentences of up to 400 tokens.")

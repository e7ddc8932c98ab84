import core, gen_lex
def run(c):
    core.build("lex_driver")
    T = ("lex_driver", "LexicalTrace.tla", "LexicalTrace.cfg")
    texts = c.generate("LexicalDesign.tla", "LexicalNumbers.cfg", workers=core.JOBS)
    ev = [{"op": "num", "text": t} for t in texts]
    c.conform("small", T[0], [ev[k:k + 50] for k in range(0, len(ev), 50)], *T[1:])
    c.conform("numerals", T[0], gen_lex.numerals(c.rng, c.pick(1500, 30000)), *T[1:])
    c.assumptions.append("The decimal expansions of the doubles and of their rounding intervals come from the C library's printf.")

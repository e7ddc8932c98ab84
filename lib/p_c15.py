import core, gen_lex
def run(c):
    core.build("lex_driver")
    T = ("lex_driver", "LexicalTrace.tla", "LexicalTrace.cfg")
    # The scanner of the specification agrees with the grammar of tokens.
    c.model("LexicalDesign.tla", "LexicalDesign.cfg")
    if c.thorough:
        c.model("LexicalDesign.tla", "LexicalBig.cfg", timeout=1500)
    # Every text that the model explored, lexed for real.
    for name in ("Any", "Numbers", "Quotes"):
        texts = c.generate("LexicalDesign.tla", "Lexical%s.cfg" % name, workers=core.JOBS)
        if name == "Any" and not c.thorough:
            texts = c.rng.sample(texts, 20000)
        ev = [{"op": "lex", "text": t} for t in texts]
        c.conform("small_" + name, T[0], [ev[k:k + 50] for k in range(0, len(ev), 50)], *T[1:], chunk=c.pick(None, 100))
    c.conform("texts", T[0], gen_lex.cases(c.rng, c.pick(600, 12000)), *T[1:])
    c.assumptions.append("A text ends at its first NUL character; nothing is said of the place of the end of a text whose last literal or comment is unterminated.")

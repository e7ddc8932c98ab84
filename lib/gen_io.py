"""File names, input objects and commands."""
B = lambda s: list(s.encode("latin-1"))
KNOWN = ["mo", "mlir", "bc", "ll", "o"]
LANGS = ["Unknown", "Modelica", "BaseModelica", "MLIR", "LLVM_IR"]
FORMS = ["Source", "Object", "Unknown"]

def extension(rng):
    e = rng.choice(KNOWN)
    r = rng.random()
    if r < 0.4: return e
    if r < 0.5: return e.upper()
    if r < 0.6: return e + rng.choice("aox ./")
    if r < 0.7: return e[:-1]
    if r < 0.8: return rng.choice("aox /") + e
    return rng.choice(["", "c", "so", "oo", "mos", "bmo", "txt", "m", "l", "b", "ir", "obj", "O", "\0", "o\0", "-"])

def name(rng):
    stem = rng.choice(["a", "dir/a", "./a", "../x/y", "", "a.b", "a.mo", "x.o", "dir.mo/f", "dir.ll/a", "/abs/f", "-", "..", "a..", "."])
    return stem + rng.choice([".", ".", ".", "", ".."]) + extension(rng)

def words(rng):
    return rng.choice(["", "", "a", "-o", "--x=1", "with space", "\"q\"", "'", "$HOME", "*", "\\", "\xe9", "a\nb", "-", ";", "x" * 300,
                       "%s", "&& true", "\t"])

def names(rng, n):
    ev = [{"op": "name", "name": B(name(rng))} if rng.random() < 0.7 else {"op": "extension", "name": B(extension(rng))} for _ in range(n)]
    return [ev[k:k + 50] for k in range(0, len(ev), 50)]

def small():
    """Every extension of up to four letters of the known ones."""
    import itertools
    ev = []
    for n in range(5):
        for t in itertools.product("molircb.", repeat=n):
            ev.append({"op": "extension", "name": B("".join(t))})
            if n < 4:
                ev.append({"op": "name", "name": B("f." + "".join(t))})
                ev.append({"op": "name", "name": B("".join(t))})
    return [ev[k:k + 200] for k in range(0, len(ev), 200)]

def inputs(rng, n):
    ev = [{"op": "input", "from": f, "what": B(rng.choice(["", "a.mo", "-", "text", "dir/x.o"])), "kind": {"language": l, "format": m}}
          for f in ("none", "file", "buffer") for l in LANGS for m in FORMS for _ in range(n)]
    return [ev[k:k + 50] for k in range(0, len(ev), 50)]

def commands(rng, n):
    out = []
    for _ in range(n):
        ev = [{"op": "command", "files": [B(rng.choice(["", "in", "abc\n", "\0x", "z" * 50])) for _ in range(4)]}]
        has_in = False
        for _ in range(rng.randrange(1, 12)):
            r = rng.random()
            if r < 0.35: ev.append({"op": "arg", "arg": B(words(rng)), "c": rng.random() < 0.5})
            elif r < 0.5: ev.append({"op": "args", "args": [B(words(rng)) for _ in range(rng.randrange(0, 5))]})
            elif r < 0.7:
                w = rng.choice(["in", "out", "err"])
                has_in |= w == "in"
                # the standard streams never share a file
                ev.append({"op": "redirect", "which": w, "file": {"in": [0], "out": [1, 2], "err": [3]}[w][rng.randrange(2) if w == "out" else 0]})
            elif r < 0.95: ev.append({"op": "exec", "code": rng.choice([0, 0, 1, 2, 7, 100])})
            else: ev.append({"op": "fail", "die": rng.random() < 0.5})
        ev.append({"op": "exec", "code": rng.choice([0, 1, 3])})
        out.append(ev)
    return out

import core, gen_serial
T = ("../mo/mo_driver", "SerialTrace.tla", "SerialTrace.cfg")


def interned(e, seen={}):
    """The lines of a program are only compared: a number for each of them."""
    for o in [e.get("before") or {}] + [c["val"] for c in e.get("chan") or []]:
        if "lines" in o:
            o["lines"] = [seen.setdefault(x, len(seen)) for x in o["lines"]]
    return {k: v for k, v in e.items() if k not in ("text", "pipes", "keep", "gaps", "head", "tail", "ir")}


def run(c):
    core.build(T[0])
    c.model("SerialDesign.tla", "SerialDesign.cfg")
    r = c.rng
    c.conform("short_texts", T[0], gen_serial.short(r, c.pick(3, 4)), *T[1:])
    c.conform("sets", T[0], [gen_serial.sets(r, k % 2) for k in range(c.pick(1500, 15000))], *T[1:])
    c.conform("annotations", T[0], [gen_serial.annotated(r) for _ in range(c.pick(4000, 40000))], *T[1:])
    c.conform("constants", T[0], [gen_serial.consts(r) for _ in range(c.pick(1500, 15000))], *T[1:])
    c.conform("programs", T[0], [gen_serial.program(r) for _ in range(c.pick(300, 3000))], *T[1:], project=interned)

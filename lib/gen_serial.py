"""Programs and annotations to be written and read back (C21)."""
import itertools, struct
import gen_model
from gen_model import P1, P2, LATE, FULL, Model


def program(rng):
    """A generated model, somewhere on its way through the compiler."""
    m = Model(rng, dict(FULL)).build()
    ft, _ = gen_model.filters(rng, m)
    pipe = (P1 + "," + P2).split(",")
    tail = ["schedule-parallelization", "schedulers-instantiation", "convert-bmodelica-to-runtime{variable-filter=%s}" % ft] + LATE[1:].split(",")
    k = rng.choice([0, 1, 2, 3, 4]) and rng.randint(0, len(pipe) + len(tail))
    p = (pipe + tail)[:k]
    return [{"op": "compile", "text": m.render(), "pipes": [",".join(p)] if p else [], "keep": [0] * (1 + bool(p)), "serial": 1}]


HEAD = {
    "add_equation": ("runtime.scheduler.add_equation @s, @f ", "\n"),
    "equation_call": ("bmodelica.equation_call @f ", "\n"),
    "equation_instance": ('bmodelica.model @M {\n %t = bmodelica.equation_template inductions = [] {\n'
                          '  %0 = bmodelica.constant #bmodelica<real 0.0>\n  %1 = bmodelica.equation_side %0 : tuple<!bmodelica.real>\n'
                          '  bmodelica.equation_sides %1, %1 : tuple<!bmodelica.real>, tuple<!bmodelica.real>\n }\n'
                          ' bmodelica.dynamic {\n bmodelica.equation_instance %t', "\n }\n}\n"),
    "schedule_block": ("bmodelica.schedule_block ", " {}\n"),
    "printable_indices": ("runtime.printable_indices ", "\n"),
    "model": ("bmodelica.model @M ", " attributes {mark} {\n}\n"),
    "range": ("module attributes {a = #modeling<", ">} {}\n"),
    "box": ("module attributes {a = #modeling<", ">} {}\n"),
}
S = lambda x: [x]
O, C, L, R, K, A, Z, Q = S("{"), S("}"), S("["), S("]"), S(","), S("<"), S(">"), S("=")
I = lambda n: ["int", n]
W = lambda w: ["id", w]


def sym(n):
    return ["@", n.replace(".", "::@"), n]


def interval(rng, far):
    lo = far + rng.randint(-3, 5)
    return [L, I(lo), K, I(lo + rng.choice([0, 0, 1, 1, 2, 3])), R]


def box(rng, rank, far):
    return [t for _ in range(rank) for t in interval(rng, far)]


def comma(parts):
    out = []
    for k, p in enumerate(parts):
        out += ([K] if k else []) + p
    return out


def iset(rng):
    rank, far = rng.choice([1, 1, 2, 2, 3]), rng.choice([0, 0, 0, 1, 1000000, -1000000, 2000000000])
    n = rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 6] if rank < 3 else [0, 1, 1, 2, 3])
    return [O] + comma([box(rng, rank, far) for _ in range(n)]) + [C]


NAMES = ["x", "y", "z", "der_x", "r.x", "r.y", "a.b.c"]


def variable(rng):
    n = [sym(rng.choice(NAMES))]
    return rng.choice([n, [A] + n + [Z], [A] + n + [K] + iset(rng) + [Z], [A] + n + [K] + iset(rng) + [Z]])


def listof(rng, f, most=4):
    return [L] + comma([f(rng) for _ in range(rng.randint(0, most))]) + [R]


def direction(rng):
    return [W(rng.choice(["any", "forward", "backward", "unknown"]))]


def printable(rng):
    return rng.choice([[W("true")], [W("false")], iset(rng), iset(rng)])


def tokens(rng, kind):
    if kind in ("add_equation", "equation_call"):
        return iset(rng), []
    if kind == "equation_instance":
        parts = [([K, W("indices"), Q] + iset(rng)), ([K, W("match"), Q] + variable(rng)), ([K, W("schedule"), Q] + listof(rng, direction, 3))]
        return [t for p in rng.sample(parts, rng.randint(0, 3)) for t in p], []
    if kind == "schedule_block":
        return [W("writtenVariables"), Q] + listof(rng, variable) + [K, W("readVariables"), Q] + listof(rng, variable), []
    if kind == "printable_indices":
        return listof(rng, printable, 5), []
    if kind == "model":
        ns = rng.sample(NAMES, rng.randint(0, 4))
        ds = []
        for n in ns:
            d = [A, sym(n), K, sym("d" + n)]
            ds.append(d + rng.choice([[Z], [K] + iset(rng) + [Z], [K] + iset(rng) + [Z]]))
        if not ns and rng.random() < .5:
            return [], []
        return [W("der"), Q, L] + comma(ds) + [R], sorted(ns)
    if kind == "range":
        return [W("range")] + interval(rng, rng.choice([0, 0, 7, -9, 1000000])), []
    return [W("multidim_range")] + box(rng, rng.randint(1, 4), rng.choice([0, 0, 7, -9, 1000000])), []


POOL = [O, C, L, R, K, K, A, Z, Q, I(0), I(1), I(-2), I(3), W("any"), W("true"), W("forward"), sym("x")]


def mutate(rng, ts):
    before, ts = ts, list(ts)
    k = rng.randint(0, len(ts))
    r = rng.random()
    if r < .3 and k < len(ts):
        del ts[k]
    elif r < .55:
        ts.insert(k, rng.choice(POOL))
    elif r < .7 and k < len(ts):
        ts[k] = rng.choice(POOL)
    elif r < .85 and k + 1 < len(ts):
        ts[k], ts[k + 1] = ts[k + 1], ts[k]
    else:
        ints = [j for j, t in enumerate(ts) if t[0] == "int"]
        if ints:
            j = rng.choice(ints)
            ts[j] = I(ts[j][1] + rng.choice([-4, -1, 1, 4]))
    return ts if small(ts) else mutate(rng, before)


def small(ts):
    """No interval has too many points to list them."""
    num = lambda t: t[1] if t[0] == "int" else -1 if t[1:] == ["true"] else 0 if t[1:] == ["false"] else None
    return all(ts[k + 1] != K or None in (num(ts[k]), num(ts[k + 2])) or num(ts[k + 2]) - num(ts[k]) < 20 for k in range(len(ts) - 2))


def gaps(rng, ts):
    out, prev = [], None
    for t in ts:
        tight = prev is None or (prev in "{}[],<=" and not (t[0] == "int" and t[1] < 0)) or (t[0] in ("}", "]", ",", ">", "{", "[") and prev != ">")
        out.append(rng.choice(["", " ", ""]) if tight and prev is not None else rng.choice([" ", "  ", "\n"]))
        prev = t[0]
    return out


def annotation(rng, kind, ts, order):
    h, t = HEAD[kind]
    return [{"op": "annot", "kind": kind, "head": h, "tail": t, "toks": ts, "order": order, "gaps": gaps(rng, ts)}]


def annotated(rng, bad=.45):
    kind = rng.choice(list(HEAD))
    while True:
        ts, order = tokens(rng, kind)
        if rng.random() < bad:
            ts = mutate(rng, ts)
            if kind == "model":     # the names may have changed
                names = [t[2] for t in ts if t[0] == "@"]
                if sorted(names) != sorted(order + ["d" + n for n in order]) or any(names[k + 1] != "d" + names[k] for k in range(0, len(names) - 1, 2)):
                    continue
        return annotation(rng, kind, ts, order)


def short(rng, n):
    """All texts of up to n tokens, as annotations of an operation."""
    al = [O, C, L, R, K, I(0), I(1)]
    return [annotation(rng, "add_equation", list(ts), []) for k in range(n + 1) for ts in itertools.product(al, repeat=k)]


def sets(rng, bad):
    """Sets near what is allowed: texts that differ from a set in one place."""
    ts = iset(rng)
    return annotation(rng, rng.choice(["add_equation", "equation_call"]), mutate(rng, ts) if bad else ts, [])


def real(rng):
    v = rng.choice([0.0, -0.0, 1.0, -1.0, .1, 1 / 3, 2 ** .5, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 123456789.125, float("inf"),
                    rng.uniform(-10, 10), rng.gauss(0, 1) * 10 ** rng.randint(-20, 20), struct.unpack("<d", struct.pack("<Q", rng.getrandbits(62)))[0]])
    return struct.unpack("<Q", struct.pack("<d", v))[0]


def integer(rng):
    return rng.choice([0, 1, -1, 42, 2 ** 31, -2 ** 31, 2 ** 63 - 1, -2 ** 63 + 1, rng.randint(-100, 100), rng.getrandbits(60)])


def consts(rng):
    """Constants of all kinds, as attributes of a module."""
    parts, want = [], []
    for k in range(rng.randint(1, 5)):
        n = "a%d" % k
        r = rng.choice(["bool", "int", "real", "bools", "ints", "reals", "irange", "rrange", "path"])
        shape = rng.choice([[rng.randint(0, 4)], [rng.randint(1, 5)], [rng.randint(1, 3), rng.randint(1, 3)]])
        size = shape[0] * (shape[1] if len(shape) > 1 else 1)
        ten = lambda t: "tensor<%sx!bmodelica.%s>" % ("x".join(map(str, shape)), t)
        if r == "bool":
            v = rng.random() < .5
            t, w = "#bmodelica<bool %s>" % str(v).lower(), "bool %d !bmodelica.bool" % v
        elif r == "int":
            v = integer(rng)
            t, w = "#bmodelica<int %d>" % v, "int %d !bmodelica.int" % v
        elif r == "real":
            v = real(rng)
            t, w = "#bmodelica<real 0x%016X>" % v, "real %X !bmodelica.real" % v
        elif r == "bools":
            vs = [rng.random() < .5 for _ in range(size)]
            t = "#bmodelica.dense_bool<[%s]> : %s" % (", ".join(str(v).lower() for v in vs), ten("bool"))
            w = " ".join(["bools"] + ["%d" % v for v in vs] + [ten("bool")])
        elif r == "ints":
            vs = [integer(rng) for _ in range(size)]
            t = "#bmodelica.dense_int<[%s]> : %s" % (", ".join(map(str, vs)), ten("int"))
            w = " ".join(["ints"] + [str(v) for v in vs] + [ten("int")])
        elif r == "reals":
            vs = [real(rng) for _ in range(size)]
            t = "#bmodelica.dense_real<[%s]> : %s" % (", ".join("0x%016X" % v for v in vs), ten("real"))
            w = " ".join(["reals"] + ["%X" % v for v in vs] + [ten("real")])
        elif r == "irange":
            v = (integer(rng), integer(rng), rng.choice([1, 2, 5, -1]))
            t, w = "#bmodelica<int_range <%d, %d, %d>>" % v, "irange %d %d %d !bmodelica<range !bmodelica.int>" % v
        elif r == "rrange":
            v = (real(rng), real(rng), real(rng))
            t, w = "#bmodelica<real_range <0x%016X, 0x%016X, 0x%016X>>" % v, "rrange %X %X %X !bmodelica<range !bmodelica.real>" % v
        else:
            p = [rng.randint(0, 9) for _ in range(rng.randint(0, 4))]
            s = rng.choice("LR")
            t, w = "#bmodelica<equation_path [%s]>" % ", ".join([s] + [str(x) for x in p]), " ".join(["path", s] + [str(x) for x in p])
        parts.append("%s = %s" % (n, t))
        want.append(n + " " + w)
    return [{"op": "annot", "kind": "consts", "head": "module attributes {%s} {}\n" % ", ".join(parts), "tail": "", "toks": [], "order": [], "gaps": [], "want": want}]

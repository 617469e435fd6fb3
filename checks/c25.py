import itertools
import os
import vlib

HOW = ("range", "const", "pre", "post", "old", "constit", "index", "jump", "back")


def ints(c):
    return ",".join(map(str, c)) or "-"


def line(e):
    o = e["op"]
    if o == "new":
        return "new %s %s" % (e["ctor"], ints(e["d"]))
    if o in ("set", "poke"):
        return "%s %s %d" % (o, ints(e["c"]), e["v"])
    if o in ("get", "sub"):
        return "%s %s %s" % (o, ints(e["c"]), e["k"])
    if o == "move":
        return "move %s %d" % (e["how"], e["n"])
    return "%s %s" % (o, e.get("how", e.get("where")))


def prod(d):
    n = 1
    for x in d:
        n *= x
    return n


def whole(rng, d, ctor):
    """Every element of one shape, by every route."""
    tr = [{"op": "new", "ctor": ctor, "d": list(d)}]
    cs = [list(c) for c in itertools.product(*[range(x) for x in reversed(d)])]
    rng.shuffle(cs)
    for i, c in enumerate(cs[:24]):
        tr.append({"op": "get", "c": c, "k": ("const", "var")[i % 2]})
        tr.append({"op": "set", "c": c, "v": 100 + i})
    for k in range(len(d)):
        pre = [list(c) for c in itertools.product(*[range(x) for x in list(reversed(d))[:k]])]
        for c in rng.sample(pre, min(3, len(pre))):
            tr.append({"op": "sub", "c": c, "k": rng.choice(("const", "var"))})
    tr += [{"op": "iterate", "how": h} for h in HOW]
    return tr


def history(rng, n):
    tr = []
    d, it = [1], -1
    for _ in range(n):
        op = rng.choices(("new", "set", "get", "sub", "iterate", "place", "move", "poke"), (2, 5, 4, 4, 3, 3, 8, 4))[0]
        if not tr:
            op = "new"
        R = len(d)
        if op == "new":
            d = [rng.choice((0, 1, 1, 2, 2, 3, 3, 4, 5)) if rng.random() < .9 else rng.randrange(1, 12) for _ in range(rng.choice((1, 2, 2, 3, 3, 4, 5)))]
            while prod(d) > 200:
                d[rng.randrange(len(d))] = 2
            it = -1
            tr.append({"op": op, "ctor": rng.choice(("args", "array")), "d": list(d)})
            continue
        if op in ("set", "get") and prod(d):
            c = [rng.randrange(x) for x in reversed(d)]
            tr.append({"op": op, "c": c, "v": rng.randrange(1000)} if op == "set" else {"op": op, "c": c, "k": rng.choice(("const", "var"))})
        elif op == "sub" and all(d[1:]):
            k = rng.randrange(R)
            tr.append({"op": op, "c": [rng.randrange(x) for x in list(reversed(d))[:k]], "k": rng.choice(("const", "var"))})
        elif op == "iterate":
            tr.append({"op": op, "how": rng.choice(HOW)})
        elif op == "place" and prod(d):
            w = rng.choice(("begin", "end"))
            it = 0 if w == "begin" else d[-1]
            tr.append({"op": op, "where": w})
        elif op == "move" and it >= 0:
            how = rng.choice(("preinc", "postinc", "predec", "postdec", "add"))
            n_ = 1 if "inc" in how else -1 if "dec" in how else rng.randrange(0, d[-1] - it + 1)
            if 0 <= it + n_ <= d[-1]:
                it += n_
                tr.append({"op": op, "how": how, "n": n_})
        elif op == "poke" and 0 <= it < d[-1] and R > 1:
            tr.append({"op": op, "c": [rng.randrange(x) for x in list(reversed(d))[1:]], "v": rng.randrange(1000)})
    return tr


def run(ctx):
    ctx.level = "model_checking"
    rng = ctx.rng
    ctx.cd
    exes = {}

    def build(std):
        exe = os.path.join(ctx.work, "marray" + std)
        vlib.must_compile(ctx.cd, [os.path.join(vlib.HARN, "marray.cc")], exe, std="c++" + std, incs=(vlib.HARN,))
        exes[std] = exe
    vlib.parallel(build, ("11", "14", "17"))
    vlib.model_check(ctx, "MArrayMC", "MArrayMC.cfg")
    shapes = [s for r in range(1, 5) for s in itertools.product(range(4), repeat=r)]
    for std in ("11", "14", "17"):
        every = [whole(rng, s, ctor) for s in shapes for ctor in ("args", "array")]
        if ctx.quick:
            every = [t for t in every if len(t[0]["d"]) < 4 or rng.random() < .15]
        vlib.record_and_validate(ctx, exes[std], every, line, "every shape, C++" + std, "MArrayTrace", "MArrayTrace.cfg")
        traces = [history(rng, rng.choice((15, 50))) for _ in range(100 if ctx.quick else 4000)]
        vlib.record_and_validate(ctx, exes[std], traces, line, "histories, C++" + std, "MArrayTrace", "MArrayTrace.cfg")
    ctx.assumptions = ["an array of dimensions passes to the constructor as const", "iterators are moved by ++, -- and +=, within the array"]

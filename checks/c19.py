import os
import vlib


def line(e):
    o = e["op"]
    if o == "register":
        return "register %d %d %d" % (e["f"], e["k"], e["n"])
    return " ".join([o] + [str(e[x]) for x in "fgikn" if x in e] + ([str(e["v"])] if "v" in e else []))


def trace(rng, n):
    tr, made = [], 0
    reg = {f: {1: 1} for f in (1, 2, 3)}
    for _ in range(n):
        op = rng.choices(("register", "own", "create", "change", "destroy", "copy", "renew"), (5, 3, 9, 2, 2, 1, .5))[0]
        f = rng.randrange(1, 4)
        if op == "register":
            k, n = rng.randrange(1, 6), rng.randrange(1, 8)
            reg[f].setdefault(n, k)
            tr.append({"op": op, "f": f, "n": n, "k": k})
        elif op == "own":
            k = rng.randrange(1, 6)
            reg[f].setdefault(k, k)
            tr.append({"op": op, "f": f, "k": k})
        elif op == "create":
            n = rng.randrange(1, 8)
            made += n in reg[f]
            tr.append({"op": op, "f": f, "n": n})
        elif op == "change" and made:
            tr.append({"op": op, "i": rng.randrange(1, made + 1), "v": rng.randrange(100)})
        elif op == "destroy" and made:
            made -= 1
            tr.append({"op": op})
        elif op == "copy":
            g = f % 3 + 1
            reg[g] = dict(reg[f])
            tr.append({"op": op, "f": f, "g": g})
        elif op == "renew":
            reg[f] = {1: 1}
            tr.append({"op": op, "f": f})
    return tr


def run(ctx):
    ctx.level = "model_checking"
    rng = ctx.rng
    ctx.cd
    exes = {}

    def build(std):
        exe = os.path.join(ctx.work, "factory" + std)
        vlib.must_compile(ctx.cd, [os.path.join(vlib.HARN, "factory.cc")], exe, std="c++" + std, incs=(vlib.HARN,))
        exes[std] = exe
    vlib.parallel(build, ("98", "17"))
    for cfg, init in (("FactoryMC.cfg", [[[1, 0, 0]] * 2, []]), ("FactoryMC1.cfg", [[[1, 0, 0, 0]], []])):
        r = vlib.model_check(ctx, "FactoryMC", cfg)
        g = vlib.Graph(vlib.emitted(r), init)
        walks = g.tours(60, rng)
        ctx.log("%s: %d transitions, %d walks" % (cfg, g.n, len(walks)))
        for std in ("98", "17"):
            for key in ("string", "int", "double"):
                vlib.replay_walks(ctx, exes[std], walks, line, "factories by %s, C++%s" % (key, std), args=[key])
    for std in ("98", "17"):
        for key in ("string", "int", "double"):
            traces = [trace(rng, rng.choice((10, 40))) for _ in range(60 if ctx.quick else 2000)]
            vlib.record_and_validate(ctx, exes[std], traces, line, "factories by %s, C++%s" % (key, std), "FactoryTrace", "FactoryTrace.cfg", args=[key])
    ctx.assumptions = ["names are listed as strings (types() is for factories whose names convert to string); others are found by creating"]

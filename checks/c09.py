import itertools
from bufcommon import *


def oline(e):
    return e["op"] if e["op"] == "restart" else "%s %s %d" % (e["kind"], hx(e["x"]), e["pos"])


def run(ctx):
    ctx.level = "model_checking"
    ctx.assumptions = ["only consistency as a total order is required; which order is left to the implementation"]
    vlib.model_check(ctx, "OrderMC", "Order.cfg")
    exe = build(ctx, "order", "c++17", (), "order.cc")
    rng = ctx.rng
    small = [list(t) for n in range(4) for t in itertools.product((0, 1, 127, 128, 255), repeat=n)]
    runs = []
    for kind in ("nat", "xdr", "str", "vec", "obj"):
        for _ in range(2 if ctx.quick else 12):
            if kind == "obj":
                cs = [[rng.choice((0, 1, 2)) for _ in range(rng.randrange(6))] for _ in range(90)]
                cs = [list(c) for c in {tuple(c) for c in cs}]
            elif kind in ("str", "vec"):
                cs = rng.sample(small, 90)
            else:
                cs = list(small)
            cs += [rng.choice(cs) for _ in range(15)]
            # long contents that differ late, in either direction, and in length only
            base = [rng.randrange(256) for _ in range(rng.choice((17, 40, 200)))] if kind != "obj" else [1] * 30
            for _ in range(12):
                c = list(base)
                if kind != "obj":
                    c[rng.randrange(len(c))] = rng.choice((0, 127, 128, 255))
                if rng.random() < 0.4:
                    c = c[:rng.randrange(len(c))]
                cs.append(c)
            if kind == "xdr":
                cs = [c * 4 for c in cs]
            rng.shuffle(cs)
            runs.append([{"op": "meet", "kind": kind, "x": c, "pos": rng.randrange(len(c) + 1)} for c in cs])
    ctx.cov["comparisons"] = sum(len(r) * (len(r) - 1) // 2 for r in runs)

    vlib.record_and_validate(ctx, exe, runs, oline, "comparisons", "OrderTrace", "OrderTrace.cfg", merge=lambda e, o: o)

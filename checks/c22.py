import c21
import mpicommon as M
import vlib


def optext(o):
    k = o["op"]
    if k in ("exec", "bcast"):
        a = [o["m"], o["x"], o["how"]]
    elif k == "direct":
        a = [o["m"], o["x"], o["s"]]
    elif k == "value":
        a = [o["x"]]
    else:
        a = []
    return ",".join([k] + [str(x) for x in a])


def text(p):
    return ";".join(optext(o) for o in p["ops"]) or "-"


def events(p, log):
    ev = [{"ph": "restart", "n": p["n"]}]
    for e in log:
        ev.append({"ph": "call", "o": p["ops"][e["k"] - 1]} if e["ph"] == "call" else e)
    return ev


def make(rng, n, steps):
    ops, out = [], 0
    for _ in range(steps):
        k = rng.choices(("exec", "get", "waitall", "bcast", "direct", "value"), (8, 5, 1, 2, 1, .5))[0]
        if k == "exec" and out == n - 1:
            k = "get"
        x = rng.randrange(1, 1000)
        if k == "exec":
            ops.append(dict(op=k, m=rng.choice((1, 2, 2, 4, 5)), x=x, how=rng.randrange(2)))
            out += 1
        elif k == "get" and out:
            ops.append(dict(op=k))
            out -= 1
        elif k == "waitall":
            ops.append(dict(op=k))
            out = 0
        elif k in ("bcast", "direct"):
            # the master does not send to slaves that are sending to it
            if out:
                ops.append(dict(op="waitall"))
                out = 0
            ops.append(dict(op=k, m=3, x=x, how=rng.randrange(2)) if k == "bcast" else dict(op=k, m=3, x=x, s=rng.randrange(1, n)))
        elif k == "value":
            ops.append(dict(op=k, x=x))
    if out:
        ops += [dict(op="waitall")] if rng.random() < .5 else [dict(op="get")] * out
    return {"n": n, "ops": ops}


def small():
    ex = lambda m, x: dict(op="exec", m=m, x=x, how=0)
    g, w = dict(op="get"), dict(op="waitall")
    bc = lambda x: dict(op="bcast", m=3, x=x, how=1)
    return [(n, {"n": n, "ops": ops}) for n, ops in ((2, []), (3, []), (2, [ex(1, 5), g]), (2, [ex(2, 5), g, ex(2, 6), w]), (3, [ex(2, 5), ex(2, 6), g, ex(2, 7), w]), (3, [ex(1, 5), w]),
                                                      (3, [bc(5), ex(2, 1), g]), (2, [bc(3), bc(4), ex(2, 1), g]), (4, [ex(1, 1), ex(1, 2), ex(4, 3), w]))]


def run(ctx):
    ctx.level = "model_checking"
    ctx.assumptions = ["MPI itself behaves as its standard says (simulated, every freedom of the standard being a choice)",
                       "the master sends no job to a slave that may be sending it a result, and collects all results before it ends"]
    rng = ctx.rng
    ctx.cd
    exes = {}
    c21.build(ctx, "mpislave.cc", "mpislave", exes)
    vlib.model_check(ctx, "SlaveMC", "SlaveMC.cfg", workers=8)
    if not ctx.quick:
        vlib.model_check(ctx, "SlaveMC", "SlaveMCBig.cfg", workers=8)
    kw = dict(module="SlaveTrace", to_events=events, show=text)
    limit = 400 if ctx.quick else 60000
    total = whole = 0
    nat = [e for (_, b), e in exes.items() if b == "nat"][0]
    line = lambda p: (lambda pre: "run %d -1 %s %s" % (p["n"], ",".join(map(str, pre)) or "-", text(p)))
    for k, complete in vlib.parallel(lambda x: M.every_schedule(ctx, nat, x[1], "every schedule with %d processes" % x[0], limit, line=line(x[1]), **kw), small(), n=4):
        total += k
        whole += complete
    ctx.cov["small programs with all their schedules"] = whole
    ctx.log("%d schedules of %d small programs, all of them of %d" % (total, len(small()), whole))
    for (std, b), e in exes.items():
        ps = [make(rng, rng.choice((2, 3, 3, 4, 5)), rng.choice((3, 8, 20))) for _ in range(100 if ctx.quick else 3000)]
        lines = [(p, "run %d %d - %s" % (p["n"], rng.randrange(1 << 30), text(p))) for p in ps for _ in range(5 if ctx.quick else 20)]
        M.execute(ctx, e, lines, "random programs, %s" % b, **kw)

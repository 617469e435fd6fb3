import json
import os
import callgen
import vlib

MODES = {"98 unrolled": dict(std="98", unrolled=True), "11": dict(std="11", unrolled=False), "17": dict(std="17", unrolled=False), "17 unrolled": dict(std="17", unrolled=True)}
HARD = ("string", "vec", "P")


def program(fns, nobj, unrolled):
    return {"nobj": nobj, "unrolled": unrolled, "fns": [
        dict(args=f["args"], bases=[callgen.base(t) for t in f["args"]], ret=f["ret"], retbase=callgen.base(f["ret"]), ref=f["ret"].endswith("&"),
             const=f["const"], **{"class": "" if f["kind"] in ("free", "static") else callgen.CLS[f["kind"]]}) for f in fns]}


def line(e):
    o = e["op"]
    return " ".join([o, e.get("way", "x"), str(e.get("f", 0)), str(e.get("o", 0))] + [str(x) for x in e.get("a", [])])


def trace(rng, fns, nobj, mode, n):
    m = MODES[mode]
    tr, buf = [], []
    b = {"bound": {}, "const": {}}
    ops = ("call", "apply", "applyv", "bind", "rebind", "copy", "pack", "run", "clear")
    meth = lambda i: fns[i - 1]["kind"] not in ("free", "static")
    arg = lambda: rng.choice((0, 1, rng.randrange(200), rng.randrange(200), rng.randrange(30000)))
    bases = lambda i: [callgen.base(t) for t in fns[i - 1]["args"]]
    args = lambda i: [arg() for _ in fns[i - 1]["args"]]

    def way(i):
        if not meth(i):
            return "ptr" if m["unrolled"] or rng.random() < .5 else "fun"
        w = rng.choice(("bound", "bound", "const"))
        if i not in b[w]:
            b[w][i] = rng.randrange(nobj)
            tr.append({"op": "bind", "f": i, "way": w, "o": b[w][i]})
        return w
    for i in range(1, len(fns) + 1):
        if rng.random() < 3. / len(fns):
            tr.append({"op": "describe", "f": i})
    while len(tr) < n:
        op = rng.choices(ops, (4, 4, 2, 3, 3, 1, 5, 6, .2))[0]
        i = rng.randrange(1, len(fns) + 1)
        if op in ("call", "apply", "applyv"):
            if op != "call" and m["std"] == "98" and any(x in HARD for x in bases(i)):
                continue
            tr.append({"op": op, "f": i, "way": way(i), "a": args(i)})
        elif op in ("bind", "rebind", "copy"):
            if not meth(i) or (m["unrolled"] and op == "rebind"):
                continue
            w = way(i) if op != "bind" else rng.choice(("bound", "const"))
            if op == "copy":
                tr.append({"op": op, "f": i, "way": w})
            else:
                b[w][i] = rng.randrange(nobj)
                tr.append({"op": op, "f": i, "way": w, "o": b[w][i]})
        elif op == "pack":
            w = "raw" if m["unrolled"] else rng.choice(("raw", "args", "sig") + (() if meth(i) else ("fun",)))
            a = args(i)
            tr.append({"op": op, "f": i, "way": w, "a": a})
            buf += bases(i)
            if rng.random() < .6 and len(buf) == len(a):
                tr.append({"op": rng.choice(("run", "runp")), "f": i, "way": way(i)})
                tr[-1], buf = tr[-1], []
        elif op == "run":
            c = [j for j in range(1, len(fns) + 1) if bases(j) == buf[:len(bases(j))] and (bases(j) or rng.random() < .1)]
            if c:
                j = rng.choice(c)
                w = way(j)
                tr.append({"op": rng.choice(("run", "runp")), "f": j, "way": w})
                buf = buf[len(bases(j)):]
        else:
            tr.append({"op": op})
            buf = []
    return tr


def build(ctx, name, fns, nobj, modes):
    """-> [(mode, exe, program)]"""
    d = os.path.join(ctx.work, name)
    os.makedirs(d)
    vlib.gen_cd(ctx.cd, os.path.join(vlib.HARN, "call.h"), ["pack", "unpack"], os.path.join(d, "call.cd"), ["-nodef", "-onbase"])
    with open(os.path.join(d, "uni.cd"), "w") as f:
        f.write("".join('#include "%s"\n' % x for x in ("call.h", "classdesc.h", "pack_base.h", "pack_stl.h", "function.h", "call.cd", "classdesc_epilogue.h")))
    src = os.path.join(d, "uni.cc")
    with open(src, "w") as f:
        f.write(callgen.source(fns, nobj))
    out = []
    for mode, buf in modes:
        m = MODES[mode]
        exe = os.path.join(d, "call-" + (mode + "-" + buf).replace(" ", "-"))
        defs = ["BUF=" + buf] + (["UNROLLED"] if m["unrolled"] else []) + (["USE_UNROLLED"] if m["unrolled"] and m["std"] != "98" else [])
        vlib.must_compile(ctx.cd, [src, os.path.join(ctx.cd, "xdr_pack.cc")], exe, std="c++" + m["std"], defs=defs, incs=(d, vlib.HARN), opt="-O0")
        prog = os.path.join(d, "prog%d.json" % m["unrolled"])
        with open(prog, "w") as f:
            json.dump(program(fns, nobj, m["unrolled"]), f)
        out.append((mode, buf, exe, prog))
    return out


SMALL = [dict(args=["int"], ret="int", kind="free", const=False, noexcept=False), dict(args=["const short&"], ret="void", kind="b2", const=False, noexcept=False),
         dict(args=["int", "int"], ret="const string&", kind="virt", const=True, noexcept=False)]


def run(ctx):
    ctx.level = "model_checking"
    ctx.assumptions = ["the buffer has the arguments the function takes (reading others is the buffer's concern)", "references to what is not constant are not arguments"]
    rng = ctx.rng
    ctx.cd
    modes = list(MODES)
    jobs = [("small", SMALL, 2, [(m, "pack_t") for m in modes])]
    fns = callgen.every(6 if ctx.quick else 20, rng)
    per = 9
    rng.shuffle(fns)
    for i in range(0, len(fns), per):
        jobs.append(("every%d" % i, fns[i:i + per], 3, [(m, rng.choice(("pack_t", "xdr_pack"))) for m in modes]))
    for i in range(4 if ctx.quick else 60):
        jobs.append(("random%d" % i, callgen.make(rng, 9, 8), 3, [(rng.choice(modes), rng.choice(("pack_t", "xdr_pack"))) for _ in range(1)]))
    built = dict(vlib.parallel(lambda j: (j[0], build(ctx, *j)), jobs))
    ctx.log("%d programs built" % sum(len(b) for b in built.values()))
    prog = [p for m, _, _, p in built["small"] if m == "17"][0]
    r = vlib.model_check(ctx, "CallMC", "CallMC.cfg", env={"PROG": prog})
    g = vlib.Graph(vlib.emitted(r), [[0, 0], [-1] * 3, [-1] * 3, []])
    walks = g.tours(80, rng)
    ctx.log("%d transitions, %d walks" % (g.n, len(walks)))
    for mode, buf, exe, _ in built["small"]:
        # there is no type by which arguments of an old-style function object could be looked up
        vlib.replay_walks(ctx, exe, [[e for e in w] for w in walks] if not MODES[mode]["unrolled"] else [w[:next((k for k, e in enumerate(w) if e.get("way") == "fun"), len(w))] for w in walks], line, "C++%s" % mode)
    for name, fns, nobj, _ in jobs:
        for mode, buf, exe, prog in built[name]:
            traces = [trace(rng, fns, nobj, mode, rng.choice((15, 60))) for _ in range(8 if ctx.quick else 100)]
            traces.append([{"op": "describe", "f": i + 1} for i in range(len(fns))])
            vlib.record_and_validate(ctx, exe, traces, line, "%s, C++%s, %s" % (name, mode, buf), "CallTrace", "CallTrace.cfg", tlc_env={"PROG": prog}, groups=1)
    ctx.cov["functions"] = sum(len(j[1]) for j in jobs)

import json, os
import vlib

KINDS = ["RM2", "RVec", "RDeq", "RLst", "RMap", "RArr", "PM2", "PVec", "FM2"]
FIXED = {"RM2", "RArr", "PM2", "FM2"}      # exactly two links


def line(e):
    o = e["op"]
    if o in ("restart", "rewind"):
        return o
    a = "%s %d" % (o, e["x"])
    if o == "set":
        return a + " " + json.dumps([[str(n["v"]), [str(i) for i in n["l"]]] for n in e["g"]], separators=(",", ":"))
    if o == "copy":
        return a + " %d" % e["y"]
    return a + " %d" % e["lim"] if "lim" in e else a


def canon(nodes, root):
    """nodes: list of (v, links 0/1-based)"""
    order, q = [], [root]
    for o in q:
        if o and o not in order:
            order.append(o)
            q += nodes[o - 1][1]
    return [{"v": nodes[o - 1][0], "l": [order.index(i) + 1 if i else 0 for i in nodes[o - 1][1]]} for o in order]


def rand_graph(rng, kind, big):
    n = rng.choice((0, 1, 2, 3, 5, 8, 12))
    shape = rng.random()
    if big and shape < 0.2:
        n = rng.choice((700, 1400))
        nodes = [(i, [i + 2 if i + 1 < n else 0, rng.choice((0, 1, i + 1))]) for i in range(n)]       # a chain deeper than the default limit
        return [{"v": v, "l": l} for v, l in nodes]
    nodes = []
    for i in range(n):
        k = 2 if kind in FIXED else rng.choice((0, 1, 2, 3, 6))
        if shape < 0.5:
            l = [rng.choice((0, rng.randrange(n) + 1, rng.randrange(n) + 1)) for _ in range(k)]
        elif shape < 0.7:
            l = [rng.choice((0, min(n, i + 2), max(1, i))) for _ in range(k)]       # doubly linked
        else:
            l = [min(n, 2 * i + 2 + j) if 2 * i + 2 + j <= n else rng.choice((0, 1, i + 1)) for j in range(k)]
        nodes.append((rng.choice((0, i, 7, -1)), l))
    return canon(nodes, 1) if n else []


def trace(rng, kind, length, big):
    tr, q, rd = [], 0, 0
    for x in (1, 2, 3):
        tr.append({"op": "set", "x": x, "g": rand_graph(rng, kind, False)})
    for _ in range(length):
        x = rng.randrange(3) + 1
        op = rng.choice(["set"] * 4 + ["put"] * 5 + ["get"] * 6 + ["cut"] * 1 + ["putfail"] + ["copy"] * 2 + ["rewind"])
        lim = rng.choice((0, 1, 2, 3, 4, 5, 7, 500, 500))
        if op == "set":
            tr.append({"op": op, "x": x, "g": rand_graph(rng, kind, big)})
        elif op == "copy":
            tr.append({"op": op, "x": x, "y": rng.randrange(3) + 1})
        elif op in ("put", "putfail"):
            tr.append({"op": op, "x": x, "lim": lim})
            q += op == "put"
        elif op == "get":
            if rd < q or rng.random() < 0.2:
                tr.append({"op": op, "x": x})
                rd += rd < q
        elif op == "cut":
            if rd < q:
                tr.append({"op": op, "x": x})
        else:
            tr.append({"op": op})
            rd = 0
    return tr


def build(ctx):
    d = os.path.join(ctx.work, "graph")
    os.makedirs(d)
    cd = os.path.join(d, "graph_types.cd")
    rc, o, e = vlib.gen_cd(ctx.cd, os.path.join(vlib.HARN, "graph_types.h"), ["pack", "unpack"], cd, ["-nodef", "-onbase"])
    if rc != 0:
        raise vlib.Violation("the processor rejects a valid header: " + e[-300:], {})
    exes = {}

    def one(std):
        exes[std] = os.path.join(d, "g" + std)
        vlib.must_compile(ctx.cd, [os.path.join(vlib.HARN, "graph.cc"), os.path.join(ctx.cd, "xdr_pack.cc")], exes[std], std="c++" + std, incs=[d, vlib.HARN])
    vlib.parallel(one, ["17", "98"])
    return exes


def run(ctx):
    ctx.level = "model_checking"
    ctx.assumptions = ["nodes of one type, reached from the one link that is written; links are held as members, in arrays, sequences and maps",
                       "each written link is its own graph: sharing between separately written links is not recorded by the format"]
    exes = build(ctx)
    rng = ctx.rng
    r = vlib.model_check(ctx, "GraphStreamMC", "GraphStreamMC.cfg", workers=8)
    g = vlib.Graph(vlib.emitted(r), {"var": [[], []], "q": [], "rd": 0, "step": 0, "lim": 0})
    walks = g.tours(5, rng)
    ctx.log("%d transitions, %d walks" % (g.n, len(walks)))
    ctx.cov["exhaustive_over"] = "all graphs of at most 3 nodes with 2 links, six recursion limits"
    jobs = [(k, m, walks if not ctx.quick or (k in ("RM2", "RVec", "PM2") and m == "nat") else rng.sample(walks, len(walks) // 10)) for k in KINDS for m in ("nat", "xdr")]
    vlib.parallel(lambda j: vlib.replay_walks(ctx, exes["17"], j[2], line, "every graph, %s %s" % j[:2], args=[j[0], j[1], "2"], chunk=6000), jobs, 3)
    ctx.log("replayed")
    n = 16 if ctx.quick else 400
    jobs = []
    for k in KINDS:
        for std in ("17", "98"):
            tr = [trace(rng, k, 25, False) for _ in range(n)] + [trace(rng, k, 10, True) for _ in range(max(2, n // 10))]
            jobs.append((k, "xdr" if rng.random() < 0.4 else "nat", std, tr))
    vlib.parallel(lambda j: vlib.record_and_validate(ctx, exes[j[2]], j[3], line, "random graphs, %s %s" % j[:2], "GraphStreamTrace", "GraphStreamTrace.cfg", args=list(j[:2]), groups=2 if ctx.quick else 8), jobs, 6)
    if not ctx.quick:
        vlib.model_check(ctx, "GraphStreamMC", "GraphStreamDeep.cfg", workers=8, timeout=1500)

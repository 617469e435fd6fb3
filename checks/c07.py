import json, os
import vlib

TREES = ["TM2", "TVec", "TMap", "TFlag"]
GRAPHS = ["GM2", "GVec", "GFlag"]
FIXED = {"TM2", "TFlag", "GM2", "GFlag"}


def line(e):
    o = e["op"]
    if o == "put":
        return "put b=%d %s" % (e["b"], json.dumps([[str(n["v"]), [str(i) for i in n["l"]]] for n in e["g"]], separators=(",", ":")))
    return " ".join([o] + ["%s=%d" % (k, e[k]) for k in "bcxyij" if k in e])


def canon(nodes):
    order, q = [], [1]
    for o in q:
        if o and o not in order:
            order.append(o)
            q += nodes[o - 1][1]
    return [{"v": nodes[o - 1][0], "l": [order.index(i) + 1 if i else 0 for i in nodes[o - 1][1]]} for o in order]


def structure(rng, kind):
    n = rng.choice((0, 1, 2, 3, 5, 7))
    nodes = []
    for i in range(n):
        k = 2 if kind in FIXED else rng.choice((0, 1, 2, 3))
        if kind in GRAPHS:
            l = [rng.choice((0, rng.randrange(n) + 1)) for _ in range(k)]
        else:
            l = [rng.choice((0, min(n, i + 2 + rng.randrange(3)))) if i + 1 < n else 0 for _ in range(k)]      # forwards only
            l = [x if x > i + 1 else 0 for x in l]
        nodes.append((rng.randrange(50), l))
    return canon(nodes) if n else []


def unfold(g):
    """number of nodes when shared nodes are repeated"""
    inst = [1] if g else []
    for i in inst:
        inst += [k for k in g[i - 1]["l"] if k]
    return inst


class Sim:
    """Enough of the state to choose possible calls."""
    def __init__(self, tree):
        self.tree = tree
        self.q = [[], [], []]
        self.rd = [0, 0, 0]
        self.b = [[], [], []]
        self.x = [[], [], []]

    def fresh(self, n):
        used = set(sum(self.b + self.x, []))
        r, i = [], 1
        while len(r) < n:
            if i not in used:
                r.append(i)
            i += 1
        return r


def trace(rng, kind, n):
    s = Sim(kind in TREES)
    tr = []
    for _ in range(n):
        b, c, x, y = (rng.randrange(3) for _ in range(4))
        op = rng.choice(["put"] * 5 + ["get"] * 7 + ["rewind", "cut", "copy", "copy", "add", "give", "assign", "pick", "pick"] + ["erase"] * 3 + ["eraseb"] * 3 +
                        ["over", "over", "clear", "clearb", "drop", "renew", "movenew", "swap", "move"])
        e = {"op": op}
        if len(s.x[x]) + len(s.b[b]) > 25 and op in ("add", "get", "pick"):
            op = e["op"] = "clear"
        if op == "put":
            e["g"] = structure(rng, kind)
            s.q[b].append(e["g"])
        elif op in ("get", "cut"):
            if s.rd[b] >= len(s.q[b]):
                continue
            if op == "get":
                g = s.q[b][s.rd[b]]
                s.rd[b] += 1
                s.b[b] += s.fresh(len(unfold(g)) if s.tree else len(g))
        elif op == "rewind":
            s.rd[b] = 0
        elif op == "copy":
            s.x[x] = list(s.b[b])
        elif op == "add":
            s.x[x] += s.b[b]
        elif op == "give":
            s.b[b] = list(s.x[x])
        elif op == "assign":
            s.x[x] = list(s.x[y])
        elif op in ("pick", "eraseb"):
            if not s.b[b]:
                continue
            e["i"] = rng.choice(s.b[b])
            if op == "pick":
                s.x[x].append(e["i"])
            else:
                s.b[b].remove(e["i"])
        elif op in ("erase", "over"):
            if not s.x[x]:
                continue
            e["i"] = rng.choice(s.x[x])
            if op == "over":
                e["j"] = rng.choice(s.x[x])
                s.x[x].append(e["j"])
            s.x[x].remove(e["i"])
        elif op in ("clear", "drop"):
            s.x[x] = []
        elif op == "clearb":
            s.b[b] = []
        elif op == "renew":
            s.b[b], s.q[b], s.rd[b] = [], [], 0
        elif op in ("swap", "move"):
            if b == c:
                continue
            for l in (s.b, s.q, s.rd):
                l[b], l[c] = l[c], l[b]
            if op == "move":
                s.b[c], s.q[c], s.rd[c] = [], [], 0
        if op in ("put", "get", "rewind", "cut", "copy", "add", "give", "pick", "eraseb", "clearb", "renew", "movenew", "swap", "move"):
            e["b"] = b + 1
        if op in ("swap", "move"):
            e["c"] = c + 1
        if op in ("copy", "add", "give", "assign", "pick", "erase", "over", "clear", "drop"):
            e["x"] = x + 1
        if op == "assign":
            e["y"] = y + 1
        tr.append(e)
    return tr


def build(ctx):
    d = os.path.join(ctx.work, "owned")
    os.makedirs(d)
    rc, o, e = vlib.gen_cd(ctx.cd, os.path.join(vlib.HARN, "owned_types.h"), ["pack", "unpack"], os.path.join(d, "owned_types.cd"), ["-nodef", "-onbase"])
    if rc != 0:
        raise vlib.Violation("the processor rejects a valid header: " + e[-300:], {})
    exes = {}

    def one(std):
        exes[std] = os.path.join(d, "o" + std)
        vlib.must_compile(ctx.cd, [os.path.join(vlib.HARN, "owned.cc"), os.path.join(ctx.cd, "xdr_pack.cc")], exes[std], std="c++" + std, incs=[d, vlib.HARN])
    vlib.parallel(one, ["17", "98"])
    return exes


def run(ctx):
    ctx.level = "model_checking"
    ctx.assumptions = ["raw pointers either are null or refer to one object; structures written through tree pointers have no cycles",
                       "destroying a node does not destroy what it points to, as the objects belong to the buffer"]
    exes = build(ctx)
    rng = ctx.rng
    for std in exes:
        rc, out, err = vlib.run_harness(exes[std], "", args=["refuse"])
        if rc != 0 or out.strip() != '{"refused":1}':
            ctx.violation("pointers that are not marked are not refused (c++%s): %s %s" % (std, out[-200:], err[-300:]), {"driver": "owned refuse"})
    ctx.events += 12
    for cfg, kinds, nb, nx in (("OwnedLists.cfg", TREES + GRAPHS, 1, 2), ("OwnedBufs.cfg", TREES + GRAPHS, 2, 1), ("OwnedTree.cfg", TREES, 1, 1), ("OwnedGraph.cfg", GRAPHS, 1, 1)):
        if ctx.quick and cfg != "OwnedLists.cfg":
            cfg = cfg[:-4] + "Q.cfg"
        r = vlib.model_check(ctx, "OwnedMC", cfg, workers=8)
        g = vlib.Graph(vlib.emitted(r), {"obj": [], "buf": [{"q": [], "rd": 0, "held": []}] * nb, "lst": [[]] * nx})
        walks = g.tours(150, rng)
        ctx.log("%s: %d transitions, %d walks" % (cfg, g.n, len(walks)))
        kinds = [k for k in kinds if k in FIXED or cfg.startswith(("OwnedTree", "OwnedGraph"))]
        for i, k in enumerate(kinds):
            ws = walks if i == 0 or not ctx.quick else rng.sample(walks, max(1, len(walks) // 6))
            vlib.replay_walks(ctx, exes["98" if i == 1 else "17"], ws, line, "every transition of %s, %s" % (cfg[:-4], k), args=[k, "xdr" if i == 2 else "nat", str(nb), str(nx)])
    ctx.cov["exhaustive_over"] = "all histories of decoding, copying, assigning, erasing, clearing, swapping, moving and destroying over small numbers of buffers, lists and objects"
    n = 12 if ctx.quick else 600
    for k in TREES + GRAPHS:
        for std, m in (("17", "nat"), ("98" if rng.random() < 0.5 else "17", "xdr")):
            vlib.record_and_validate(ctx, exes[std], [trace(rng, k, 50) for _ in range(n)], line, "random histories, %s %s c++%s" % (k, m, std),
                                     "OwnedTrace", "OwnedTrace_%s.cfg" % ("tree" if k in TREES else "graph"), args=[k, m, "3", "3"])

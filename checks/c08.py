import os
import vlib


def pl(p):
    return ".".join([str(p["x"])] + [str(i) for i in p["path"]])


def line(e):
    o = e["op"]
    if o == "restart":
        return o
    a = [o]
    if o.startswith("renew"):
        a.append(str(e["x"]))
    if "p" in e:
        a.append(pl(e["p"]))
    if "q" in e:
        a.append(pl(e["q"]))
    if "v" in e:
        a.append(str(e["v"]))
    if "n" in e:
        a.append(str(e["n"]))
    if o == "swap":
        a.append(str((len(e["p"]["path"]) + e["p"]["x"]) % 2))
    return " ".join(a)


class Mirror:
    """Just enough bookkeeping to generate calls through places that exist."""
    def __init__(self, nv, nl):
        self.v = [None] * nv
        self.nl = nl

    def get(self, p):
        o = self.v[p["x"] - 1]
        for i in p["path"]:
            o = o[i - 1]
        return o

    def put(self, p, t):
        if not p["path"]:
            self.v[p["x"] - 1] = t
        else:
            self.get({"x": p["x"], "path": p["path"][:-1]})[p["path"][-1] - 1] = t

    def place(self, rng, depth):
        p = {"x": rng.randrange(len(self.v)) + 1, "path": []}
        while len(p["path"]) < depth and self.get(p) is not None and rng.random() < 0.6:
            p["path"].append(rng.randrange(self.nl) + 1)
        return p


def trace(rng, n, nv=4, nl=2, depth=3):
    m = Mirror(nv, nl)
    tr = []
    for _ in range(n):
        p, q = m.place(rng, depth), m.place(rng, depth)
        op = rng.choice(["assign"] * 6 + ["assigntarget", "assignval", "assignval", "store", "store", "touch", "copyinto", "nullify", "nullify", "swap", "swap",
                         "renew", "renewfrom", "renewval", "ask", "ask", "crowd"])
        a, b = m.get(p), m.get(q)
        if op in ("assigntarget", "copyinto") and b is None or op == "copyinto" and a is None:
            op = "assign"
        if op == "swap" and p == q:
            op = "touch"
        e = {"op": op}
        if op.startswith("renew"):
            e["x"] = p["x"]
            if op == "renewfrom":
                if q["x"] == p["x"]:
                    continue
                e["q"] = q
                m.v[p["x"] - 1] = b
            else:
                m.v[p["x"] - 1] = None
                if op == "renewval":
                    e["v"] = rng.randrange(3)
                    m.v[p["x"] - 1] = [None] * nl
            tr.append(e)
            continue
        e["p"] = p
        if op == "crowd":
            e["n"] = rng.choice((1, 10, 130, 260, 33000 if rng.random() < 0.2 else 64))
        if op in ("assign", "assigntarget", "copyinto", "swap", "ask"):
            e["q"] = q
        if op in ("assignval", "store", "ask"):
            e["v"] = rng.randrange(3)
        if op == "assign":
            m.put(p, b)
        elif op == "assigntarget":
            m.put(p, list(b))
        elif op == "copyinto":
            a[:] = list(b)
        elif op == "assignval" or (op in ("store", "touch") and a is None):
            m.put(p, [None] * nl)
        elif op == "nullify":
            m.put(p, None)
        elif op == "swap":
            # both places are found before anything moves
            hp = m.v if not p["path"] else m.get({"x": p["x"], "path": p["path"][:-1]})
            hq = m.v if not q["path"] else m.get({"x": q["x"], "path": q["path"][:-1]})
            ip = (p["path"] or [p["x"]])[-1] - 1
            iq = (q["path"] or [q["x"]])[-1] - 1
            hp[ip], hq[iq] = b, a
        tr.append(e)
    return tr


def run(ctx):
    ctx.level = "model_checking"
    ctx.assumptions = ["single-threaded use, as the count is not atomic", "target types are classes with a copy constructor and a default constructor",
                       "assignment between targets (*p=*q) is the target class's own business; the driver's class copes with losing its source"]
    exes = {}

    def one(j):
        name, std, nl = j
        exe = os.path.join(ctx.work, name)
        vlib.must_compile(ctx.cd, [os.path.join(vlib.HARN, "ref.cc")], exe, std=std, defs=["VH_LINKS=%d" % nl], incs=[vlib.HARN])
        exes[name] = exe
    ctx.cd
    vlib.parallel(one, [("r17_1", "c++17", 1), ("r17_2", "c++17", 2), ("r98_2", "c++98", 2)])
    for cfg, exe in (("RefGraph.cfg", "r17_1"), ("RefWide.cfg", "r17_2")):
        r = vlib.model_check(ctx, "Ref", cfg)
        g = vlib.Graph(vlib.emitted(r), {"var": [0, 0], "heap": []})
        walks = g.tours(200, ctx.rng)
        ctx.log("%s: %d transitions, %d walks" % (cfg, g.n, len(walks)))
        vlib.replay_walks(ctx, exes[exe], walks, line, "every transition", args=["2"])
        vlib.replay_walks(ctx, exes[exe], g.random_walks(100 if ctx.quick else 2000, 200, ctx.rng), line, "random walks", args=["2"])
    ctx.cov["exhaustive_over"] = "all histories over two references and at most three objects with one link, or two with two links"
    n = 60 if ctx.quick else 1500
    for exe in ("r17_2", "r98_2"):
        vlib.record_and_validate(ctx, exes[exe], [trace(ctx.rng, 60) for _ in range(n)], line, "random histories", "RefTrace", "RefTrace.cfg", args=["4"])

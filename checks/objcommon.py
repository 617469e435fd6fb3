"""Shared by the checks about serialising objects of arbitrary types."""
import json, os, random
import vlib, universe as U

PACKCD = (["-nodef", "-onbase"], ["pack", "unpack"])


def zero_inside(t):
    """a container of things that serialise to nothing: damaging its length would loop for ever"""
    if t["k"] in ("seq", "set") and t["e"]["z"]:
        return True
    if t["k"] == "map" and t["a"]["z"] and t["b"]["z"]:
        return True
    return any(zero_inside(u) for u in ([t[f] for f in ("e", "a", "b") if isinstance(t.get(f), dict)] + t.get("m", [])))


def table(ctx, roots, name):
    path = os.path.join(ctx.work, name)
    with open(path, "w") as f:
        for t in roots:
            r = U.tla(t)
            r["u"] = U.has_unordered(t)
            f.write(json.dumps(r) + "\n")
    return path


def line(e):
    o = e["op"]
    if o == "restart":
        return o
    if o == "slot":
        return "slot %d" % (e["t"] - 1)
    if o == "set":
        return "set %d %s" % (e["s"] - 1, json.dumps(e["v"], separators=(",", ":")))
    if o == "corrupt":
        return "corrupt %d %d" % (e["s"] - 1, e["len"])
    if o == "eq":
        return "eq %d %d" % (e["s"] - 1, e["u"] - 1)
    if o == "flush":
        return "flush" + "".join(" %d" % (t - 1) for t in e["t"])
    return "%s %d" % (o, e["s"] - 1) if "s" in e else o


def perturb(rng, t, v):
    """the same object with other values in its excluded members"""
    if not t["x"]:
        return v
    k = t["k"]
    if k == "excl":
        return U.value(rng, t["e"])
    if k == "class":
        return [perturb(rng, u, w) for u, w in zip(t["m"], v)]
    if k in ("arr", "seq", "set", "ptr"):
        return [perturb(rng, t["e"], w) for w in v]
    if k == "map":
        return [[w[0], perturb(rng, t["b"], w[1])] for w in v]
    if k == "pair":
        return [perturb(rng, t["a"], v[0]), perturb(rng, t["b"], v[1])]
    return v


def obj_trace(rng, roots, ops, length, file=False, pick=None, big=0.1):
    """A history over a few variables; mostly reads in step with what was written."""
    n = rng.choice((1, 2, 3))
    tys = rng.sample(pick or range(len(roots)), min(n, len(pick or roots)))
    slots = [t for t in tys for _ in range(2)]
    tr = [{"op": "slot", "t": t + 1} for t in slots]
    q, rd, vals = [], 0, [roots[t]["d"] for t in slots]
    for _ in range(length):
        op = rng.choices([o for o, _ in ops], [w for _, w in ops])[0]
        if op == "set":
            s = rng.randrange(len(slots))
            t = roots[slots[s]]
            x = rng.random()
            if x < 0.3 and t["x"]:
                vals[s] = perturb(rng, t, vals[s])
            elif x < 0.4:
                vals[s] = vals[s ^ 1]
            else:
                vals[s] = U.value(rng, t, rng.random() < big)
            tr.append({"op": "set", "s": s + 1, "v": vals[s]})
        elif op == "put":
            s = rng.randrange(len(slots))
            tr.append({"op": "put", "s": s + 1})
            q.append(slots[s])
        elif op in ("get", "cut", "corrupt"):
            if file:
                continue
            if rd < len(q):
                ss = [i for i, t in enumerate(slots) if t == q[rd]]
                s = rng.choice(ss)
                t = roots[slots[s]]
                if op == "corrupt":
                    if zero_inside(t):
                        continue
                    tr.append({"op": op, "s": s + 1, "len": 1 if U.tla(t)["len"] else 0})
                else:
                    tr.append({"op": op, "s": s + 1})
                if op == "get":
                    rd += 1
            elif op == "get":
                ss = [i for i, t in enumerate(slots) if not roots[t]["z"]]
                if ss and rng.random() < 0.3:
                    tr.append({"op": "get", "s": rng.choice(ss) + 1})
        elif op == "eq":
            s = rng.randrange(0, len(slots), 2)
            if not U.has_unordered(roots[slots[s]]):
                if rng.random() < 0.5:
                    vals[s + 1] = perturb(rng, roots[slots[s]], vals[s])
                    tr.append({"op": "set", "s": s + 2, "v": vals[s + 1]})
                tr.append({"op": "eq", "s": s + 1, "u": s + 2})
        elif op == "rewind":
            if not file:
                tr.append({"op": op})
                rd = 0
        elif op == "clear":
            tr.append({"op": op})
            q, rd = [], 0
        elif op == "flush":
            tr.append({"op": "flush", "t": [t + 1 for t in q]})
            q, rd = [], 0
    return tr


def canon_pool(ctx, exe, roots, pool):
    """what the driver reports for each value once assigned (the order of sets is C++'s)"""
    lines, keys = ["restart"], []
    for t, vs in pool.items():
        lines.append("slot %d" % t)
        keys.append(None)
        for v in vs:
            lines.append("set %d %s" % (sum(1 for l in lines if l.startswith("slot")) - 1, json.dumps(v)))
            keys.append(t)
    objs, fail = vlib.run_script(ctx, exe, lines)
    if fail:
        raise vlib.CheckError("driver: " + fail)
    res = {}
    for k, o in zip(keys, objs[1:]):
        if k is not None and o["val"] not in res.setdefault(k, []):
            res[k].append(o["val"])
    return res


def graph_check(ctx, exe, roots, tab, label, args=(), nvals=2, slots=None, maxwalk=40, sample=None, ctx_info=None, cfg="ObjStreamMC.cfg", items=2):
    """Every behaviour of the model for a few variables, replayed on the real code."""
    rng = ctx.rng
    pool = {t: [roots[t]["d"]] + [U.value(rng, roots[t]) for _ in range(6)] for t in set(slots)}
    pool = canon_pool(ctx, exe, roots, pool)
    setup = {"items": items, "slots": [t + 1 for t in slots], "pool": [sorted(pool.get(i, []), key=lambda v: (v == roots[i]["d"], len(json.dumps(v)) < 3, rng.random()))[:nvals] for i in range(len(roots))]}
    sp = os.path.join(ctx.work, "setup-%d.ndjson" % rng.randrange(1 << 40))
    with open(sp, "w") as f:
        f.write(json.dumps(setup) + "\n")
    r = vlib.model_check(ctx, "ObjStreamMC", cfg, env={"TYPES": tab, "SETUP": sp}, workers=4)
    tr = vlib.emitted(r)
    init = {"val": [roots[t]["d"] for t in slots], "q": [], "rd": 0}
    g = vlib.Graph(tr, init)
    walks = g.tours(maxwalk, rng)
    if sample and len(walks) > sample:
        walks = rng.sample(walks, sample)
    # corrupting what cannot be corrupted safely is left out
    drop = {i + 1 for i, t in enumerate(slots) if zero_inside(roots[t])}
    walks = [[e for e in w if not (e["op"] == "corrupt" and e["s"] in drop)] for w in walks]
    pre = ["slot %d" % t for t in slots]
    ctx.log("%s: %d transitions, %d walks" % (label, g.n, len(walks)))
    # the slots are set up by the first events of every walk
    pr = [{"op": "slot", "t": t + 1, "obs": {"val": roots[t]["d"]}} for t in slots]
    return vlib.replay_walks(ctx, exe, [pr + w for w in walks], line, label, args=args, ctx_info=ctx_info,
                             observed=lambda o: {k: v for k, v in o.items() if k != "id"})


def build(ctx, n, **kw):
    """Drivers for n random universes, the first also for C++98."""
    ctx.cd
    jobs = [(i, std, random.Random(ctx.rng.random())) for i in range(n) for std in (("17", "98") if i % 2 == 0 else ("17",))]

    def one(job):
        i, std, r = job
        cpp11 = std == "17"
        u = U.Universe(r, nclasses=7, cpp11=cpp11, **kw)
        roots = u.roots(U.fixed_roots(cpp11))
        exe = U.build_driver(ctx, "o%d_%s" % (i, std), u, roots, "objstream.cc", "c++" + std, *PACKCD)
        return exe, roots, table(ctx, roots, "types%d_%s" % (i, std)), u
    return vlib.parallel(one, jobs)

from objcommon import *
import polyuni as P

OPS = [("set", 5), ("put", 5), ("get", 7), ("clone", 3), ("cast", 2), ("poke", 3), ("spare", 2), ("rewind", 0.7), ("clear", 0.2), ("cut", 0.4), ("corrupt", 0.4)]
HEADERS = {"object": '#include "object.h"\n',
           "poly": '#include "polyBase.h"\n#include "polyPackBase.h"\n#include "polyXMLBase.h"\n#include "pack_base.h"\n#include "pack_stl.h"\n#include "xml_pack_base.h"\n#include "xml_unpack_base.h"\n'}


def say(e):
    o = e["op"]
    if o in ("clone", "cast"):
        return "%s %d %d" % (o, e["s"] - 1, e["u"] - 1) + (" %s" % e["k"][1:] if o == "cast" else "")
    if o == "poke":
        return "poke %d %s" % (e["s"] - 1, json.dumps(e["v"], separators=(",", ":")))
    return line(e)


def poly_trace(rng, u, roots, length, xml):
    tys = rng.sample(range(len(roots)), rng.choice((1, 2, 2)))
    if rng.random() < .6:
        tys[0] = rng.choice([i for i in range(len(roots)) if roots[i]["k"] == "poly"])
    slots = [t for t in tys for _ in range(2)]
    tr = [{"op": "slot", "t": t + 1} for t in slots]
    q, rd, vals = [], 0, [roots[t]["d"] for t in slots]
    ops = [(o, w) for o, w in OPS if not (xml and o in ("cut", "corrupt"))]
    P.nulls_in_containers[0] = not xml
    for _ in range(length):
        op = rng.choices([o for o, _ in ops], [w for _, w in ops])[0]
        if op == "set":
            s = rng.randrange(len(slots))
            vals[s] = u.value(roots[slots[s]])
            tr.append({"op": op, "s": s + 1, "v": vals[s]})
        elif op == "put":
            s = rng.randrange(len(slots))
            tr.append({"op": op, "s": s + 1})
            q.append((slots[s], vals[s]))
        elif op in ("get", "cut", "corrupt"):
            if rd < len(q):
                s = rng.choice([i for i, t in enumerate(slots) if t == q[rd][0]])
                e = {"op": op, "s": s + 1}
                if op == "corrupt":
                    e["len"] = 1 if U.tla(roots[slots[s]])["len"] else 0
                tr.append(e)
                if op == "get":
                    vals[s] = q[rd][1]
                    rd += 1
            elif op == "get" and not xml and rng.random() < .3:
                s = rng.choice([i for i, t in enumerate(slots) if not roots[t]["z"]] or [None])
                if s is not None:
                    tr.append({"op": op, "s": s + 1})
                    vals[s] = roots[slots[s]]["d"]
        elif op in ("clone", "cast", "poke"):
            s = rng.randrange(len(slots))
            t = roots[slots[s]]
            if t["k"] != "poly" or not vals[s]:
                continue
            if op == "poke":
                k = int(vals[s][0][1:])
                vals[s] = ["k%d" % k, u.value(u.hier[k], 1)]
                tr.append({"op": op, "s": s + 1, "v": vals[s]})
            else:
                d = s ^ 1 if rng.random() < .8 else s
                e = {"op": op, "s": s + 1, "u": d + 1}
                if op == "cast":
                    k = rng.randrange(len(u.hier))
                    e["k"] = "k%d" % k
                    vals[d] = vals[s] if u.derives(int(vals[s][0][1:]), k) else []
                else:
                    vals[d] = vals[s]
                tr.append(e)
        elif op in ("rewind", "clear", "spare"):
            tr.append({"op": op})
            if op != "spare":
                rd = 0
            if op == "clear":
                q = []
    return tr


def run(ctx):
    ctx.level = "model_checking"
    rng = ctx.rng
    ctx.cd
    kinds = [("crtp", "17", "string"), ("mixin", "17", "int"), ("object", "17", ""), ("crtp", "98", "enum"), ("mixin", "98", "string"), ("object", "98", ""), ("crtp", "17", "int"), ("mixin", "17", "enum")]
    jobs = [(i, k, random.Random(rng.random())) for i, k in enumerate(kinds[:5] if ctx.quick else kinds * 5)]

    def one(job):
        i, (style, std, ids), r = job
        cpp11 = std == "17"
        u = P.Hierarchy(r, style, cpp11, r.choice((3, 4, 5)), ids)
        n = len(u.hier)
        u.extra = []
        if style != "object":
            u.extra.append(u.poly("unique" if cpp11 else "auto", u.root, range(n)))
        else:
            b = u.hier[0]["cpp"]
            u.extra.append(u.poly("shared", b, [k for k in range(n) if u.derives(k, 0)]))
        roots = [u.any] + u.extra + [U.SEQ("vector", u.any), U.SEQ("list", u.any), U.MAP("map", U.STR(), u.any), u.hier[n - 1]]
        d = os.path.join(ctx.work, "isa%d" % i)
        with open(d, "w") as f:
            f.write(json.dumps({"isa": {"k%d" % a: ["k%d" % b for b in range(n) if u.derives(a, b)] for a in range(n)}}) + "\n")
        tab = table(ctx, roots, "types%d" % i)
        defs = ["POLY"]
        os.makedirs(os.path.join(ctx.work, "h%d" % i))
        with open(os.path.join(ctx.work, "h%d" % i, "poly_headers.h"), "w") as f:
            f.write(HEADERS["object" if style == "object" else "poly"])
        exes = []
        for m in ("bin", "xml"):
            if m == "xml" and style == "object":
                continue
            actions = ["pack", "unpack"] + (["xml_pack", "xml_unpack"] if style != "object" else [])
            flags = ["-nodef", "-onbase", "-typeName", "-respect_private"]
            exes.append((m, U.build_driver(ctx, "p%d_%s" % (i, m), u, roots, "objstream.cc" if m == "bin" else "polyxml.cc", "c++" + std, flags, actions, defs=defs, incs=[os.path.join(ctx.work, "h%d" % i)])))
        return exes, roots, tab, d, u, "%s, C++%s, ids %s" % (style, std, ids)
    for k, (exes, roots, tab, isa, u, label) in enumerate(vlib.parallel(one, jobs)):
        env = {"TYPES": tab, "HIER": isa}
        for m, exe in exes:
            ptrs = [i for i, t in enumerate(roots) if t["k"] == "poly"]
            pool = {t: [roots[t]["d"]] for t in ptrs}
            P.nulls_in_containers[0] = m == "bin"
            t = rng.choice(ptrs)
            graph(ctx, exe, roots, env, u, [t, t], "%s, %s" % (m, label), m)
            for args in (["nat"], ["xdr"]) if m == "bin" else ([],):
                traces = [poly_trace(rng, u, roots, rng.choice((12, 30)), m == "xml") for _ in range(35 if ctx.quick else 400)]
                vlib.record_and_validate(ctx, exe, traces, say, "%s %s, %s" % (m, " ".join(args), label), "PolyTrace", "PolyTrace.cfg", args=args, tlc_env=env, ctx_info=u.header())
    ctx.assumptions = ["pointers own what they point to (sharing is not kept); null pointers in containers are left out of XML"]


def graph(ctx, exe, roots, env, u, slots, label, m):
    rng = ctx.rng
    t = roots[slots[0]]
    a = ["k%d" % t["of"][-1], u.value(u.hier[t["of"][-1]], 2)]
    pool = [a, ["k%d" % t["of"][0], u.value(u.hier[t["of"][0]], 2)], ["k%d" % t["of"][-1], u.value(u.hier[t["of"][-1]], 2)], []]
    pool = [v for i, v in enumerate(pool) if v not in pool[:i]]
    pool = canon_pool(ctx, exe, roots, {slots[0]: pool})[slots[0]]
    setup = {"items": 1, "slots": [x + 1 for x in slots], "pool": [pool if i == slots[0] else [] for i in range(len(roots))]}
    sp = os.path.join(ctx.work, "setup-%d.ndjson" % rng.randrange(1 << 40))
    with open(sp, "w") as f:
        f.write(json.dumps(setup) + "\n")
    r = vlib.model_check(ctx, "PolyMC", "PolyMC.cfg", env=dict(env, SETUP=sp), workers=4)
    tr = vlib.emitted(r)
    if m == "xml":
        tr = [e for e in tr if not (e[1]["op"] == "get" and e[1]["obs"]["ret"] == "err")]
    g = vlib.Graph(tr, {"val": [roots[x]["d"] for x in slots], "q": [], "rd": 0})
    walks = g.tours(40, rng)
    ctx.log("%s: %d transitions, %d walks" % (label, g.n, len(walks)))
    pr = [{"op": "slot", "t": x + 1, "obs": {"val": roots[x]["d"]}} for x in slots]
    vlib.replay_walks(ctx, exe, [pr + w for w in walks], say, label, ctx_info=u.header(), observed=lambda o: {k: v for k, v in o.items() if k != "id"})

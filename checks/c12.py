from xmlcommon import *
OPS = [("set", 2), ("load", 5), ("read", 8), ("damage", 1)]


def models(ctx):
    rng = ctx.rng
    u, roots = small()
    tab = table(ctx, roots, "small")
    exe = U.build_driver(ctx, "xsmall", u, roots, "xmldoc.cc", "c++17", xmlcd(u), None)
    # every small document
    r = vlib.model_check(ctx, "XmlMC", "XmlMC%s.cfg" % ("Q" if ctx.quick else ""), workers=8, env={"TYPES": tab})
    g = vlib.Graph(vlib.emitted(r), {"val": [], "docs": []})
    walks = g.tours(2, rng)
    for w in walks:
        w.insert(0, {"op": "slot", "t": 1, "obs": {"val": lexval(roots[0], roots[0]["d"])}})
        for i, e in enumerate(w):
            w[i] = e = dict(e)
            if e["op"] == "set":
                e["v"] = unlex(roots[0], e["v"])
            if e["op"] == "readx":
                e["text"] = render(rng, {"n": "root", "r": {"s": "-"}, "c": e["doc"]}).encode().hex()
                e["how"] = rng.randrange(4)
    ctx.log("small documents: %d transitions" % g.n)
    vlib.replay_walks(ctx, exe, walks, line, "every small document", observed=lambda o: dict(o, val=lexval(roots[0], o["val"])) if "val" in o else o)
    # every sequence of forms of character data
    r = vlib.model_check(ctx, "XmlText", "XmlText%s.cfg" % ("Q" if ctx.quick else ""), workers=8)
    walks = [[dict(e, how=rng.randrange(4), text=("<root>" + e["text"] + "</root>").encode().hex(), obs=dict(e["obs"], val=hx(e["obs"]["val"])))] for _, e, _ in vlib.emitted(r)]
    vlib.replay_walks(ctx, exe, walks, line, "every sequence of ways to write characters")
    # every sequence of tags
    r = vlib.model_check(ctx, "XmlTags", "XmlTags%s.cfg" % ("Q" if ctx.quick else ""), workers=8)
    walks = [[dict(e, text=e["text"].encode().hex())] for _, e, _ in vlib.emitted(r)]
    vlib.replay_walks(ctx, exe, walks, line, "every sequence of tags")


def run(ctx):
    ctx.level = "model_checking"
    rng = ctx.rng
    models(ctx)
    built = build(ctx, 2 if ctx.quick else 10)
    for exe, roots, tab, u in built:
        traces = [xml_trace(rng, roots, OPS, rng.choice((10, 16)), pick=[t], cov=ctx.cov) for t in range(len(roots)) for _ in range(3 if ctx.quick else 12)]
        vlib.record_and_validate(ctx, exe, traces, line, "documents read", "XmlTrace", "XmlTrace.cfg", tlc_env={"TYPES": tab}, ctx_info=u.header(), merge=merger(roots), groups=2)

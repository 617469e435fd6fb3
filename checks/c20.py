import vlib, xmlcommon as X
from objcommon import *
WRAPPED = {"num": (-4, "int short long longlong float double"), "pos": (0, "uchar unsigned int"), "bool": (0, "bool"), "ptr": (-1, "intptr"), "class": (0, "string vector class enum")}


def wline(e):
    return " ".join([e["op"]] + [str(e[k]) for k in ("o", "v") if k in e])


def wrappers(ctx):
    """an excluded member in use behaves like the wrapped type"""
    exes = {}

    def one(std):
        exes[std] = os.path.join(ctx.work, "wrap" + std)
        vlib.must_compile(ctx.cd, [os.path.join(vlib.HARN, "wrap.cc")], exes[std], std="c++" + std, incs=[vlib.HARN])
    vlib.parallel(one, ["17", "98"])
    for k, (lo, types) in WRAPPED.items():
        r = vlib.model_check(ctx, "Wrap", "Wrap_%s.cfg" % k)
        g = vlib.Graph(vlib.emitted(r), {"x": lo, "y": lo})
        walks = g.tours(100, ctx.rng)
        for t in types.split():
            for std in exes:
                vlib.replay_walks(ctx, exes[std], walks, wline, "Exclude<%s> in use, C++%s" % (t, std), args=[t, str(lo)])

OPS = [("set", 6), ("put", 6), ("get", 6), ("eq", 2), ("rewind", 0.7)]


def run(ctx):
    ctx.level = "model_checking"
    ctx.assumptions = ["types wrapped are copyable and default constructible"]
    rng = ctx.rng
    ctx.cd
    wrappers(ctx)
    built = build(ctx, 2 if ctx.quick else 8, excl=0.5)
    ctx.cov["universes"] = len(built)
    ctx.cov["types"] = sum(len(b[1]) for b in built)
    for k, (exe, roots, tab, u) in enumerate(built):
        pick = [i for i in range(len(roots)) if roots[i]["x"]]
        if not pick:
            continue
        if k < 2 or not ctx.quick:
            t = rng.choice(pick)
            graph_check(ctx, exe, roots, tab, "class %s" % roots[t]["cpp"], slots=[t, t], nvals=2, items=1 if ctx.quick else 2, ctx_info=u.header(), sample=20000)
        for args in (["nat"], ["xdr"]):
            traces = [obj_trace(rng, roots, OPS, 40, pick=[t]) for t in pick for _ in range(6 if ctx.quick else 40)]
            vlib.record_and_validate(ctx, exe, traces, line, "excluded members, %s" % args[0], "ObjStreamTrace", "ObjStreamTrace.cfg", args=args, tlc_env={"TYPES": tab}, ctx_info=u.header())
    # the same for XML: no element is written for them, and none is read
    for exe, roots, tab, u in X.build(ctx, 1 if ctx.quick else 6, excl=0.5):
        pick = [i for i in range(len(roots)) if roots[i]["x"]]
        for ops in ((("set", 4), ("write", 5), ("read", 3)), (("set", 2), ("load", 5), ("read", 8))):
            traces = [X.xml_trace(rng, roots, ops, 14, pick=[t]) for t in pick for _ in range(8 if ctx.quick else 40)]
            if traces:
                vlib.record_and_validate(ctx, exe, traces, X.line, "excluded members, XML", "XmlTrace", "XmlTrace.cfg", tlc_env={"TYPES": tab}, ctx_info=u.header(), merge=X.merger(roots), groups=2)

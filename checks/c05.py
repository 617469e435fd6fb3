from objcommon import *
OPS = [("set", 5), ("put", 5), ("get", 7), ("eq", 1), ("rewind", 0.7), ("clear", 0.2)]
FILEOPS = [("set", 5), ("put", 7), ("flush", 1)]


def run(ctx):
    ctx.level = "model_checking"
    ctx.assumptions = ["floating point values are compared bit by bit; NaNs are not generated",
                       "element types of containers are default constructible, as the library requires"]
    rng = ctx.rng
    built = build(ctx, 2 if ctx.quick else 10)
    ctx.cov["universes"] = len(built)
    ctx.cov["types"] = sum(len(b[1]) for b in built)
    for k, (exe, roots, tab, u) in enumerate(built):
        if k < 2 or not ctx.quick:
            t = rng.choice([i for i in range(len(roots)) if roots[i]["k"] == "class"])
            graph_check(ctx, exe, roots, tab, "class %s" % roots[t]["cpp"], slots=[t, t], nvals=2, items=1 if ctx.quick else 2, ctx_info=u.header(), sample=20000)
            t2 = rng.sample(range(len(roots)), 2)
            graph_check(ctx, exe, roots, tab, "types %s, %s" % tuple(roots[i]["cpp"] for i in t2), args=["xdr"], slots=[t2[0], t2[1]], nvals=2, ctx_info=u.header())
        for args in (["nat"], ["xdr"], ["nat", "file"], ["xdr", "file"]):
            file = len(args) > 1
            m = 40 if ctx.quick else 300
            traces = [obj_trace(rng, roots, FILEOPS if file else OPS, rng.choice((12, 30)), file=file, pick=[t]) for t in range(len(roots)) if not file or t % 3 == 0]
            traces += [obj_trace(rng, roots, FILEOPS if file else OPS, 40, file=file) for _ in range(m // 4 if file else m)]
            vlib.record_and_validate(ctx, exe, traces, line, "objects, %s" % " ".join(args), "ObjStreamTrace", "ObjStreamTrace.cfg", args=args, tlc_env={"TYPES": tab}, ctx_info=u.header())

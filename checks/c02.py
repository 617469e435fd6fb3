from objcommon import *
import bufcommon
OPS = [("set", 4), ("put", 5), ("get", 6), ("cut", 3), ("corrupt", 2), ("rewind", 0.5), ("clear", 0.2)]


def run(ctx):
    ctx.level = "model_checking"
    ctx.assumptions = ["a damaged count of things that take no space in the stream cannot be noticed and is not generated",
                       "allocation above 256 MB fails with bad_alloc, as it eventually would in production",
                       "corrupted bytes other than a leading length may decode to another object; only memory safety and termination are required then"]
    rng = ctx.rng
    buffers(ctx)
    built = build(ctx, 2 if ctx.quick else 8)
    ctx.cov["universes"] = len(built)
    ctx.cov["types"] = sum(len(b[1]) for b in built)
    for k, (exe, roots, tab, u) in enumerate(built):
        if k < 2 or not ctx.quick:
            t = rng.choice([i for i in range(len(roots)) if roots[i]["k"] == "class" and not zero_inside(roots[i])])
            graph_check(ctx, exe, roots, tab, "class %s" % roots[t]["cpp"], args=[("nat", "xdr")[k % 2]], slots=[t], nvals=3, ctx_info=u.header(),
                        cfg="ObjStreamDamage.cfg", sample=100 if ctx.quick else 2000)
        for args in (["nat"], ["xdr"]):
            traces = [obj_trace(rng, roots, OPS, rng.choice((8, 14)), pick=[t], big=0.03) for t in range(len(roots)) for _ in range(1 if ctx.quick else 4)]
            vlib.record_and_validate(ctx, exe, traces, line, "damaged objects, %s" % args[0], "ObjStreamTrace", "ObjStreamTrace.cfg", args=args, tlc_env={"TYPES": tab}, ctx_info=u.header())


def buffers(ctx):
    """Reads beyond the end at the level of the buffer: nothing transferred, nothing moved, and reading goes on later."""
    n = 40 if ctx.quick else 400
    for xdr, graph, trace in ((False, "PackBufGraph.cfg", "PackBufTrace.cfg"), (True, "XdrBufGraph.cfg", "XdrBufTrace.cfg")):
        exe = bufcommon.build(ctx, "xdr" if xdr else "nat", defs=["USE_XDR"] if xdr else [])
        r = vlib.model_check(ctx, "PackBuf", graph)
        g = vlib.Graph(vlib.emitted(r), {b: {"d": [], "p": 0, "f": 0, "r": 500} for b in "ab"})
        walks = g.random_walks(400, 100, ctx.rng) if ctx.quick else g.tours(400, ctx.rng)
        vlib.replay_walks(ctx, exe, walks, bufcommon.line, "behaviours of the buffer%s" % (", xdr" if xdr else ""), args=["a,b"])
        tr = [bufcommon.random_trace(ctx.rng, 150, ["a", "b", "c"], xdr=xdr, errors=0.6) for _ in range(n)]
        vlib.record_and_validate(ctx, exe, tr, bufcommon.line, "reads beyond the end%s" % (", xdr" if xdr else ""), "PackBufTrace", trace, args=["a,b,c"])

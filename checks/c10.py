from xmlcommon import *
OPS = [("set", 4), ("write", 4), ("read", 6)]


def run(ctx):
    ctx.level = "model_checking"
    rng = ctx.rng
    built = build(ctx, 4 if ctx.quick else 8)
    for exe, roots, tab, u in built:
        traces = [xml_trace(rng, roots, OPS, rng.choice((10, 16)), pick=[t]) for t in range(len(roots)) for _ in range(5 if ctx.quick else 12)]
        vlib.record_and_validate(ctx, exe, traces, line, "objects written and read", "XmlTrace", "XmlTraceBlind.cfg", tlc_env={"TYPES": tab}, ctx_info=u.header(), merge=merger(roots), groups=2)

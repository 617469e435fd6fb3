import c14
import program as P
import vlib


def walks_to_programs(ctx, walks, rp, insert, name):
    """each walk is a few classes; several go into one header"""
    rng, progs = ctx.rng, []
    per = 12
    for i in range(0, len(walks), per):
        opt = c14.gen_opt(rng, rp)
        p = P.Program(rng, "%s%d" % (name, i // per), std=17, access=not rp and not insert, mbr=opt["mbr"])
        for w in walks[i:i + per]:
            evs, depth = [], 0
            for e in w:
                e = dict(e)
                e.pop("obs", None)
                if e["op"] == "open":
                    depth += 1
                    bs = rng.sample(P.BASES, len(e["bases"]))
                    e["bases"] = [dict(b, b=x) for b, x in zip(e["bases"], bs)]
                if e["op"] == "close":
                    depth -= 1
                evs.append(e)
            for _ in range(depth):
                evs.append({"op": "close", "d": []})
            p.events(c14.mark(evs))
        progs.append(("%s%d" % (name, i // per), p, opt, 17))
    return progs


def scopes(ctx):
    n = 0
    for rp in (True, False):
        cfg = "ProgramAcc2.cfg" if ctx.quick else "ProgramAcc3.cfg"
        r = vlib.model_check(ctx, "ProgramAccMC", cfg, workers=8, env={"SETUP": P.setup(ctx, {"rp": rp, "onbase": False})})
        init = [[{"s": "file", "acc": "pub", "seen": True, "tmpl": False, "need": "no"}], "o"]
        g = vlib.Graph(vlib.emitted(r), init)
        walks = g.tours(60, ctx.rng)
        ctx.rng.shuffle(walks)
        ctx.log("respect_private %s: %d transitions, %d walks" % (rp, g.n, len(walks)))
        k = 300 if ctx.quick else len(walks)
        if rp:
            c14.validated_run(ctx, walks_to_programs(ctx, walks[:k], True, False, "rp"), "nested scopes, private respected")
        else:
            c14.validated_run(ctx, walks_to_programs(ctx, walks[:k], False, True, "ins"), "nested scopes, access inserted", insert=True)


def run(ctx):
    ctx.level = "model_checking"
    scopes(ctx)
    n = 24 if ctx.quick else 300
    c14.random_programs(ctx, n, rp=True, label="random programs, private respected")
    c14.random_programs(ctx, n, insert=True, label="random programs, access inserted")

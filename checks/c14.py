import os
import re
import program as P
import vlib

KINDS = P.KINDS


def header_flags(opt):
    f = ["-nodef"]
    if opt.get("rp"):
        f.append("-respect_private")
    if opt.get("onbase"):
        f.append("-onbase")
    if opt.get("mbr"):
        f.append("-use_mbr_pointers")
    return f


def gen_opt(rng, rp=False):
    return {"rp": rp, "onbase": rng.random() < .5, "mbr": rng.random() < .3}


def report(ctx, what, prog, flags, pre):
    ctx.violation(what, {"flags": flags, "header": pre + prog.header(), "events": [{k: v for k, v in e.items() if k != "seen"} for e in prog.kept][:200]})


def predicted_run(ctx, progs):
    """[(name, program with predictions, opt, std)]: every observation is as the specification says"""
    def one(x):
        name, prog, opt, std = x
        if len(ctx.violations) > 3:
            return
        flags = header_flags(opt)
        pre = P.PRELUDE % "#include <functional>"
        bad = P.build_and_run(ctx, prog, name, flags, std)
        if bad:
            report(ctx, bad, prog, flags, pre)
            return
        for e in prog.kept:
            if e["op"] in ("decl", "open") and e["seen"] != e["obs"]:
                t = KINDS[e["k"] - 1]["t"] if e["op"] == "decl" else str(e["bases"])
                report(ctx, "%s after %s: predicted visits %s, observed %s (%s)" % (t, e.get("prev"), e["obs"], e["seen"], " ".join(e.get("names", []))), prog, flags, pre)
                break
            if e["op"] == "close" and e["seen"] != e["obs"]:
                report(ctx, "class %s: predicted %s, observed %s" % (prog.classes[e["cls"]].qual, e["obs"], e["seen"]), prog, flags, pre)
                break
        vlib.sh(["rm", "-rf", os.path.join(ctx.work, name)])
    vlib.parallel(one, progs)
    ctx.traces += len(progs)
    ctx.events += sum(len(p.kept) for _, p, _, _ in progs)
    ctx.enough()


CLOSE = {"op": "close", "d": [], "obs": {"ordered": True, "extra": 0, "members": []}}


def pairs(ctx):
    rng = ctx.rng
    r = vlib.model_check(ctx, "ProgramMC", "ProgramMC.cfg", workers=8, env={"SETUP": P.setup(ctx, {"rp": False, "onbase": False})})
    g = vlib.Graph(vlib.emitted(r), [[{"s": "file", "acc": "pub", "seen": True, "tmpl": False, "need": "any"}], 0])
    walks = g.tours(61, rng)
    rng.shuffle(walks)
    ctx.log("%d transitions, %d classes" % (g.n, len(walks)))
    per = 16
    progs = []
    for i in range(0, len(walks), per):
        opt = gen_opt(rng)
        std = 17
        p = P.Program(rng, "p%d" % (i // per), std=std, mbr=opt["mbr"])
        for w in walks[i:i + per]:
            evs = [dict(e, bases=e.get("bases", [])) if e["op"] == "open" else dict(e) for e in w] + [dict(CLOSE, obs=dict(CLOSE["obs"]))]
            if rng.random() < .25:
                evs[0]["params"] = rng.choice(list(P.TARGS))
                evs[0]["spec"] = rng.choice((0, 0, 1, 2))
            last = None
            for e in evs:
                if e["op"] == "decl":
                    e["prev"] = last
                    last = KINDS[e["k"] - 1]["t"]
            p.events(evs)
        progs.append(("pairs%d" % (i // per), p, opt, std))
    if ctx.quick:
        progs = progs[:48]
    predicted_run(ctx, progs)


def random_program(rng, std, size, labels=("pub", "priv", "prot"), others=True):
    """a history of Program: namespaces, nested classes, templates, bases, members"""
    evs, scopes = [], []      # scopes: "ns" or a class record
    kinds = [i + 1 for i, k in enumerate(KINDS) if k["std"] <= P.rank(std)]
    sub = rng.sample(kinds, 40)
    other = P.OTHERS + (P.OTHERS11 if P.rank(std) >= 11 else [])
    other = [o for o in other if not re.search("@1.$", o) or P.rank(std) >= int(o[-2:])]

    def cls(depth, inside=False):
        tm = rng.random() < .3 and not inside
        member = depth > 0
        bases = []
        if rng.random() < .5:
            for b in rng.sample(P.BASES, rng.choice((1, 1, 2, 3))):
                bases.append({"b": b, "a": rng.choice(("pub", "pub", "none") + labels), "v": int(rng.random() < .15)})
        e = {"op": "open", "kw": rng.choice(("class", "struct")), "tmpl": False, "bases": bases}
        if tm:
            e["tmpl"] = True
            e["params"] = rng.choice([t for t in P.TARGS if P.rank(std) >= 11 or "=" not in t])
            if not member:
                e["spec"] = rng.choice((0, 0, 0, 1, 2))
        elif P.rank(std) >= 11 and rng.random() < .1:
            e["final"] = 1
        evs.append(e)
        acc = "priv" if e["kw"] == "class" else "pub"
        for _ in range(rng.randrange(size)):
            x = rng.random()
            if x < .15:
                acc = rng.choice(labels)
                evs.append({"op": "label", "a": acc})
            elif x < .3 and depth < 3:
                cls(depth + 1, inside or tm)
            else:
                evs.append({"op": "decl", "k": rng.choice(sub) if rng.random() < .8 else rng.choice(kinds)})
        ds = []
        if member and not tm and rng.random() < .4:
            for _ in range(rng.choice((1, 1, 2))):
                ds.append({"f": "s", "dims": []} if rng.random() < .6 else {"f": "a", "dims": [rng.randrange(1, 4) for _ in range(rng.choice((1, 2)))]})
        evs.append({"op": "close", "d": ds})

    def body(depth):
        for _ in range(rng.randrange(1, 5)):
            x = rng.random()
            if x < .2 and depth < 3:
                evs.append({"op": "ns"})
                body(depth + 1)
                evs.append({"op": "nsend"})
            elif x < .55 and others:
                evs.append({"op": "other", "k": other.index(rng.choice(other)) + 1})
                evs[-1]["t"] = other[evs[-1]["k"] - 1]
            else:
                cls(0)
    for _ in range(3):
        body(0)
    return evs


def mark(evs):
    """which classes Program describes"""
    st = [("file", True, "pub", False)]
    for e in evs:
        s, seen, acc, tm = st[-1]
        if e["op"] == "ns":
            st.append(("ns", True, "pub", False))
        elif e["op"] == "open":
            e["described"] = seen and not (s == "class" and (acc != "pub" or tm))
            st.append(("class", e["described"], "priv" if e["kw"] == "class" else "pub", e["tmpl"]))
        elif e["op"] == "label":
            st[-1] = (s, seen, e["a"], tm)
        elif e["op"] in ("close", "nsend"):
            st.pop()
    return evs


def validated_run(ctx, progs, label, insert=False):
    """[(name, program, opt, std)]: what is visited is a behaviour of the specification"""
    def one(x):
        name, prog, opt, std = x
        if len(ctx.violations) > 3:
            return
        flags = header_flags(opt)
        pre = P.PRELUDE % ("#include <functional>" if P.rank(std) >= 11 else "")
        bad = P.build_and_run(ctx, prog, name, flags, std, insert=insert)
        if bad:
            report(ctx, "%s: %s" % (label, bad), prog, flags, pre)
            return
        rec = [{"op": "restart"}]
        for e in prog.kept:
            r = {k: v for k, v in e.items() if k in ("op", "kw", "tmpl", "bases", "a", "k", "d")}
            if "seen" in e:
                r["obs"] = e["seen"]
            rec.append(r)
        at = vlib.validate_trace(ctx, "ProgramTrace", "ProgramTrace.cfg", rec, env={"SETUP": P.setup(ctx, {"rp": bool(opt.get("rp")), "onbase": opt["onbase"]})})
        if at is not None:
            e = prog.kept[at - 1]
            c = prog.classes[e["cls"]] if "cls" in e else None
            report(ctx, "%s: the specification has no such step: %s %s" % (label, KINDS[e["k"] - 1]["t"] if e["op"] == "decl" else c.kw + " " + c.bare if c else "", vlib.canon({k: v for k, v in e.items() if k != "t"})[:500]), prog, flags, pre)
        vlib.sh(["rm", "-rf", os.path.join(ctx.work, name)])
    vlib.parallel(one, progs)
    ctx.traces += len(progs)
    ctx.events += sum(len(p.kept) for _, p, _, _ in progs)
    ctx.enough()
    if progs:
        ctx.sample({"kind": "program (%s)" % label, "header": progs[0][1].header()[:1500]})


def random_programs(ctx, n, rp=False, insert=False, label="random programs"):
    rng = ctx.rng
    progs = []
    for i in range(n):
        std = rng.choice((17, 17, 11, 98))
        opt = gen_opt(rng, rp)
        p = P.Program(rng, "r%d" % i, std=std, access=not rp and not insert, mbr=opt["mbr"])
        p.events(mark(random_program(rng, std, rng.choice((4, 8, 14)))))
        progs.append(("%s%d" % (re.sub(r"\W", "", label), i), p, opt, std))
    validated_run(ctx, progs, label, insert)


def run(ctx):
    ctx.level = "model_checking"
    if not os.environ.get("NOPAIRS"): pairs(ctx)
    random_programs(ctx, 64 if ctx.quick else 600)

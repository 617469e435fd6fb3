from objcommon import *
OPS = [("set", 5), ("put", 6), ("get", 7), ("rewind", 0.7), ("clear", 0.2), ("cut", 0.7), ("corrupt", 0.7)]
FILEOPS = [("set", 5), ("put", 7), ("flush", 1)]


class Plain(U.Universe):
    """classes that are nothing but their bytes"""
    def leaf(self):
        rng = self.rng
        x = rng.random()
        cs = [c for c in self.classes if U.weight(c) < 40]
        return self.scalar() if x < .6 else rng.choice(self.enums) if x < .75 or not cs else rng.choice(cs)

    def member_type(self):
        rng = self.rng
        x = rng.random()
        t = self.leaf()
        if x < .2:
            for n in rng.choice(((3,), (2,), (2, 3), (2, 1, 2), (3, 2, 2))):
                t = U.ARR(t, n)
        elif x < .3 and self.cpp11 and t["k"] != "class":
            t = U.STDARR(t, rng.choice((1, 2, 5)))
        return t

    def plain(self):
        """what a container holds"""
        rng = self.rng
        return U.PAIR(self.scalar(), self.leaf()) if rng.random() < .1 else self.leaf()

    def nested(self, depth):
        rng = self.rng
        x = rng.random()
        if x < .3:
            return U.SEQ("vector", self.plain())
        if x < .55:
            return U.SEQ(rng.choice(("deque", "list")), self.nested(depth - 1) if depth and rng.random() < .5 else self.plain())
        if x < .7:
            e = rng.choice((U.S("int"), U.S("unsigned char"), U.S("long"), U.S("bool"), U.S("short")))
            return U.SET(rng.choice(("set", "multiset") + (("unordered_set", "unordered_multiset") if self.cpp11 else ())), e)
        if x < .9 or not self.cpp11:
            return U.MAP(rng.choice(("map", "multimap") + (("unordered_map",) if self.cpp11 else ())), U.S(rng.choice(("int", "short", "unsigned long"))), self.leaf())
        return U.STDARR(self.nested(depth - 1) if depth and rng.random() < .3 else self.scalar(), rng.choice((1, 2, 4)))


def constless(t):
    return all(u["k"] != "const" for u in t.get("m", []) + [t.get("e") or t.get("a") or {"k": ""}]) and all(constless(u) for u in t.get("m", []) + [t[f] for f in ("e", "a", "b") if isinstance(t.get(f), dict)])


def raw(t):
    """as the adaptor writes it: nothing is excluded, nothing is without bytes, and the same object may have
    different bytes where nothing is stored"""
    r = U.tla(t)
    r["u"], r["z"] = True, False
    r["len"] = t["k"] in ("seq", "set", "map")
    return r


def run(ctx):
    ctx.level = "model_checking"
    rng = ctx.rng
    ctx.cd
    jobs = [(i, std, random.Random(rng.random())) for i in range(2 if ctx.quick else 12) for std in (("17", "98") if i % 2 == 0 else ("17",))]

    def one(job):
        i, std, r = job
        while True:
            u = Plain(r, nclasses=6, cpp11=std == "17", excl=0)
            if all(constless(c) for c in u.classes):
                break
        q = U.SEQ
        roots = list(u.classes) + u.enums + [U.S(c) for c, _ in U.SCALARS] + [q(c, U.S("int")) for c in ("vector", "deque", "list")] + [q("vector", U.S("bool")), q("list", q("list", U.S("short"))), q("deque", q("vector", U.S("double")))]
        roots += [u.nested(2) for _ in range(16)] + [dict(U.ARR(U.S("int"), 3), cpp="int[3]"), dict(U.ARR(U.ARR(U.S("short"), 3), 2), cpp="short[2][3]"), U.PAIR(U.S("char"), U.S("double"))]
        both = [t for t in roots if t["k"] != "arr" or t.get("c") == "array"]
        n = len(roots)
        roots = [dict(t) for t in roots] + [dict(t, cpp="Packed<%s >" % t["cpp"], packed=1) for t in both]
        tab = os.path.join(ctx.work, "types%d_%s" % (i, std))
        with open(tab, "w") as f:
            for t in roots:
                f.write(json.dumps(dict(U.tla(t), u=True) if "packed" in t else raw(t)) + "\n")
        for t in roots[:n]:
            t["z"] = False
        exe = U.build_driver(ctx, "b%d_%s" % (i, std), u, roots, "objstream.cc", "c++" + std, *PACKCD, defs=("BINSTREAM",))
        return exe, roots, tab, u, n
    for k, (exe, roots, tab, u, n) in enumerate(vlib.parallel(one, jobs)):
        info = u.header()
        ctx.cov["types"] = ctx.cov.get("types", 0) + n
        if k < 2 or not ctx.quick:
            t = rng.sample([i for i in range(n) if roots[i]["k"] in ("class", "seq", "set", "map")], 2)
            graph_check(ctx, exe, roots, tab, "types %s, %s" % (roots[t[0]]["cpp"], roots[t[1]]["cpp"]), slots=t, nvals=2, ctx_info=info, sample=20000)
            p = rng.randrange(n, len(roots))
            graph_check(ctx, exe, roots, tab, "types %s, %s" % (roots[t[0]]["cpp"], roots[p]["cpp"]), args=["xdr"], slots=[t[0], p], nvals=2, ctx_info=info, sample=20000)
        for args in (["nat"], ["xdr"], ["nat", "file"], ["xdr", "file"]):
            file = len(args) > 1
            m = 40 if ctx.quick else 300
            traces = [obj_trace(rng, roots, FILEOPS if file else OPS, rng.choice((12, 30)), file=file, pick=[t, rng.randrange(len(roots))]) for t in range(n) if not file or t % 3 == 0]
            traces += [obj_trace(rng, roots, FILEOPS if file else OPS, 40, file=file) for _ in range(m // 4 if file else m)]
            vlib.record_and_validate(ctx, exe, traces, line, "streamed values, %s" % " ".join(args), "ObjStreamTrace", "ObjStreamTrace.cfg", args=args, tlc_env={"TYPES": tab}, ctx_info=info)
    ctx.assumptions = ["plain types are those without pointers, virtual functions and constants; floating point values are compared bit by bit"]

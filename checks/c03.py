from bufcommon import *


def fline(e):
    o = e["op"]
    if o == "write":
        return "write %s %s" % (e["k"], hx(e["v"]))
    if o == "writeraw":
        return "writeraw %s" % hx(e["v"])
    if o == "writearr":
        return "writearr %s %d %s" % (e["k"], e["n"], hx(e["v"]))
    if o == "read":
        return "read " + e["k"]
    if o == "readarr":
        return "readarr %s %d" % (e["k"], e["n"])
    if o in ("readraw", "seeki", "seeko"):
        return "%s %d" % (o, e["n"])
    if o in ("openw", "openr"):
        return o + (" w" if o == "openw" else " r")
    if o == "openbad":
        return "openbad " + e["m"]
    return o


def file_trace(rng, xdr, sessions):
    """Write sessions (with overwriting) each followed by read sessions; reads stay in step with the items most of the time."""
    u = 4 if xdr else 1
    tr, size = [], 0
    for _ in range(sessions):
        items, at, size = [], 0, 0
        tr.append({"op": "openw"})
        for _ in range(rng.randrange(2, 30)):
            x = rng.random()
            if x < 0.6:
                k = rng.choice(list(KINDS))
                tr.append({"op": "write", "k": k, "v": rand_bytes(rng, k, KINDS[k])})
                w = ew(k, xdr)
                items.append(("read", k, 0))
            elif x < 0.8:
                n = rng.choice((0, 1, 3, 4, 9, 100, 1000, 5000 if rng.random() < 0.1 else 2))
                tr.append({"op": "writeraw", "v": rand_bytes(rng, "", n)})
                w = rw(n, xdr)
                items.append(("readraw", "", n))
            elif x < 0.9:
                k = rng.choice([k for k in KINDS if k != "bool"])
                n = rng.choice((0, 1, 2, 5))
                tr.append({"op": "writearr", "k": k, "n": n, "v": rand_bytes(rng, k, n * KINDS[k])})
                w = rw(n, xdr) if k == "char" else n * ew(k, xdr)
                items.append(("readarr", k, n))
            elif x < 0.97:
                n = u * rng.randrange(at // u + 1)
                n = min(n, u * rng.choice((1, 2, 5, 1000)))
                tr.append({"op": "seeki", "n": n})
                w = -n
                items = None if n else items
            else:
                tr.append({"op": "reseti"})
                w, items = -at, None if at else items
            if items is None:
                items = []
                scrambled = True
            at += w
            size = max(size, at)
        tr.append({"op": "close"})
        if rng.random() < 0.2:
            tr.append({"op": "openbad", "m": rng.choice(("w", "r"))})
        scrambled = any(e["op"] in ("seeki", "reseti") for e in tr[-40:])
        tr.append({"op": "openr"})
        for _ in range(rng.choice((1, 2))):
            pos, lost = 0, False
            if not scrambled:
                for o, k, n in items:
                    e = {"op": o, "k": k, "n": n}
                    tr.append({a: b for a, b in e.items() if b != "" and (a != "n" or o != "read")})
                tr.append({"op": "read", "k": "char"})
                lost = True
            else:
                for _ in range(20):
                    x = rng.random()
                    if x < 0.5:
                        k = rng.choice([k for k in KINDS if k != "bool"])
                        tr.append({"op": "read", "k": k})
                        w = ew(k, xdr)
                    elif x < 0.8:
                        n = rng.choice((0, 1, 5, max(0, size - pos), 17))
                        tr.append({"op": "readraw", "n": n})
                        w = rw(n, xdr)
                    else:
                        n = u * rng.randrange(-(pos // u), (size - pos) // u + 1)
                        tr.append({"op": "seeko", "n": n})
                        w = n
                    if pos + w > size:
                        lost = True
                        break
                    pos += w
            tr.append({"op": "reseto"})
        tr.append({"op": "close"})
    return tr


def run(ctx):
    ctx.level = "model_checking"
    ctx.assumptions = ["the position after a failed read is unspecified until the stream is rewound",
                       "disk-full and other write failures of the operating system are not provoked"]
    for name, xdr in (("Pack", False), ("Xdr", True)):
        r = vlib.model_check(ctx, "PackFile", name + "FileGraph.cfg")
        em = vlib.emitted(r)
        g = vlib.Graph(em, {"phase": "new", "file": [], "at": 0})
        std = "c++17" if xdr else "c++98"
        exe = build(ctx, "fb" + name, std, ["USE_XDR"] if xdr else [], "filebuf.cc")
        walks = g.tours(300, ctx.rng)
        ctx.log("%s: %d transitions, replaying %d walks, %d calls" % (name, g.n, len(walks), sum(map(len, walks))))
        vlib.replay_walks(ctx, exe, walks, fline, name + " file, model behaviours")
        tr = [file_trace(ctx.rng, xdr, 4) for _ in range(40 if ctx.quick else 600)]
        vlib.record_and_validate(ctx, exe, tr, fline, name + " file, random workload", "PackFileTrace", name + "FileTrace.cfg")

"""Shared by the buffer properties: event <-> driver line, random workloads."""
import os
import vlib

KINDS = {"bool": 1, "char": 1, "schar": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8, "ulong": 8,
         "llong": 8, "ullong": 8, "float": 4, "double": 8, "wchar": 4}


def hx(v):
    return "".join("%02x" % x for x in v) or "-"


def line(e):
    o = e["op"]
    if o == "write":
        return "write %s %s %s" % (e["b"], e["k"], hx(e["v"]))
    if o == "writearr":
        return "writearr %s %s %d %s" % (e["b"], e["k"], e["n"], hx(e["v"]))
    if o in ("writeraw", "grow", "renew"):
        return "%s %s %s" % (o, e["b"], hx(e["v"]))
    if o == "read":
        return "read %s %s" % (e["b"], e["k"])
    if o == "readarr":
        return "readarr %s %s %d" % (e["b"], e["k"], e["n"])
    if o in ("readraw", "seeki", "seeko", "shrink"):
        return "%s %s %d" % (o, e["b"], e["n"])
    if o == "readhuge":
        return "readhuge %s %s" % (e["b"], e["h"])
    if o == "flags":
        return "flags %s %d %d" % (e["b"], e["f"], e["r"])
    if o in ("swap", "moveto", "movenew"):
        return "%s %s %s" % (o, e["b"], e["c"])
    return "%s %s" % (o, e["b"])


def build(ctx, name, std="c++17", defs=(), src="packbuf.cc"):
    exe = os.path.join(ctx.work, name)
    vlib.must_compile(ctx.cd, [os.path.join(vlib.HARN, src), os.path.join(ctx.cd, "xdr_pack.cc")], exe, std=std, defs=defs, incs=[vlib.HARN])
    return exe


def rand_bytes(rng, k, n):
    if k == "bool":
        return [rng.choice((0, 1)) for _ in range(n)]
    return [rng.choice((0, 1, 127, 128, 255, rng.randrange(256))) for _ in range(n)]


def ew(k, xdr):
    return max(4, KINDS[k]) if xdr else KINDS[k]


def rw(n, xdr):
    return n + (-n) % 4 if xdr else n


def random_trace(rng, length, bufs, moves=True, maxraw=40, errors=0.15, big=False, xdr=False):
    """A sequence of calls; sizes and positions are tracked only to keep seeks inside their documented
    domain and booleans from being read out of other data."""
    u = 4 if xdr else 1
    st = {b: [0, 0] for b in bufs}
    tr = []
    for _ in range(length):
        b = rng.choice(bufs)
        s, p = st[b]
        x = rng.random()
        if x < 0.30:
            k = rng.choice(list(KINDS))
            tr.append({"op": "write", "b": b, "k": k, "v": rand_bytes(rng, k, KINDS[k])})
            st[b][0] += ew(k, xdr)
        elif x < 0.38:
            n = rng.choice((0, 0, 1, 2, 3, 5, 8, 17, maxraw, rng.randrange(maxraw + 1)))
            if big and rng.random() < 0.3:
                n = rng.choice((200, 500, 1000, 1500))
            tr.append({"op": "writeraw", "b": b, "v": rand_bytes(rng, "", n)})
            st[b][0] += rw(n, xdr)
        elif x < 0.42:
            k = rng.choice(list(KINDS))
            n = rng.choice((0, 1, 2, 3, 7))
            tr.append({"op": "writearr", "b": b, "k": k, "n": n, "v": rand_bytes(rng, k, n * KINDS[k])})
            st[b][0] += rw(n, xdr) if k == "char" else n * ew(k, xdr)
        elif x < 0.66:
            fit = [k for k in KINDS if p + ew(k, xdr) <= s]
            k = rng.choice(list(KINDS)) if rng.random() < errors or not fit else rng.choice(fit)
            if k == "bool" and p + ew(k, xdr) <= s:
                k = "uchar"        # an arbitrary byte is not a valid bool
            tr.append({"op": "read", "b": b, "k": k})
            if p + ew(k, xdr) <= s:
                st[b][1] += ew(k, xdr)
        elif x < 0.68:
            k = rng.choice([k for k in KINDS if k != "bool"])
            n = rng.choice((0, 1, 2, 5))
            tr.append({"op": "readarr", "b": b, "k": k, "n": n})
            if k == "char":
                if p + rw(n, xdr) <= s:
                    st[b][1] += rw(n, xdr)
            else:
                st[b][1] += min(n, max(0, (s - p) // ew(k, xdr))) * ew(k, xdr)
        elif x < 0.73:
            left = max(0, s - p)
            n = rng.choice((0, 1, left, left + 1, left + 7, rng.randrange(left + 1)))
            tr.append({"op": "readraw", "b": b, "n": n})
            if p + rw(n, xdr) <= s:
                st[b][1] += rw(n, xdr)
        elif x < 0.75:
            tr.append({"op": "readhuge", "b": b, "h": rng.choice(("max", "wrap0", "wrap1", "half", "size"))})
        elif x < 0.79:
            tr.append({"op": "look", "b": b})
        elif x < 0.81:
            tr.append({"op": "reseto", "b": b})
            st[b][1] = 0
        elif x < 0.82:
            tr.append({"op": "reseti", "b": b})
            st[b][0] = 0
        elif x < 0.85:
            n = rng.choice((0, u, min(s, 4 * u), u * rng.randrange(s // u + 1)))
            n = min(n, s)
            tr.append({"op": "seeki", "b": b, "n": n})
            st[b][0] -= n
        elif x < 0.89 and p <= s:
            n = u * rng.randrange(-(p // u), (s - p) // u + 1)
            tr.append({"op": "seeko", "b": b, "n": n})
            st[b][1] += n
        elif x < 0.90:
            tr.append({"op": "clear", "b": b})
            st[b] = [0, 0]
        elif x < 0.92:
            n = u * rng.randrange(20)
            tr.append({"op": "grow", "b": b, "v": rand_bytes(rng, "", n)})
            st[b][0] += n
        elif x < 0.93:
            n = u * rng.randrange(s // u + 1)
            tr.append({"op": "shrink", "b": b, "n": n})
            st[b][0] = n
        elif x < 0.94:
            n = u * rng.randrange(20)
            tr.append({"op": "renew", "b": b, "v": rand_bytes(rng, "", n)})
            st[b] = [n, 0]
        elif x < 0.96:
            tr.append({"op": "flags", "b": b, "f": rng.randrange(3), "r": rng.randrange(1, 1000)})
        else:
            c = rng.choice([z for z in bufs if z != b])
            o = rng.choice(("swap", "moveto", "movenew") if moves else ("swap",))
            tr.append({"op": o, "b": b, "c": c})
            if o == "swap":
                st[b], st[c] = st[c], st[b]
            else:
                st[b], st[c] = st[c], [0, 0]
    for b in bufs:
        tr.append({"op": "look", "b": b})
    return tr


def check_buffer(ctx, fifo, graph, trace, xdr):
    """Model check, replay every transition, validate random workloads; for either kind of buffer."""
    vlib.model_check(ctx, "PackBuf", fifo)
    r = vlib.model_check(ctx, "PackBuf", graph)
    g = vlib.Graph(vlib.emitted(r), {b: {"d": [], "p": 0, "f": 0, "r": 500} for b in "ab"})
    ctx.cov["graph_transitions"] = g.n
    defs = ["USE_XDR"] if xdr else []
    e17, e98 = vlib.parallel(lambda a: build(ctx, *a), [("pb17", "c++17", defs), ("pb98", "c++98", defs)])
    walks = g.tours(400, ctx.rng)
    ctx.log("replaying %d walks, %d calls" % (len(walks), sum(len(w) for w in walks)))
    vlib.replay_walks(ctx, e17, walks, line, "every transition", args=["a,b"])
    rws = g.random_walks(200 if ctx.quick else 3000, 300, ctx.rng)
    vlib.replay_walks(ctx, e17, rws, line, "random walks", args=["a,b"])
    g98 = [w[:next((i for i, e in enumerate(w) if e["op"].startswith("move")), len(w))] for w in rws]
    vlib.replay_walks(ctx, e98, g98, line, "random walks (C++98)", args=["a,b"])
    n = 40 if ctx.quick else 800
    for exe, moves, num, label in ((e17, True, n, "C++17"), (e98, False, n // 4, "C++98")):
        tr = [random_trace(ctx.rng, 200, ["a", "b", "c"], moves=moves, xdr=xdr) for _ in range(num)]
        tr += [random_trace(ctx.rng, 200, ["a", "b", "c"], moves=moves, xdr=xdr, big=True) for _ in range(num // 4)]
        vlib.record_and_validate(ctx, exe, tr, line, "random workload (%s)" % label, "PackBufTrace", trace, args=["a,b,c"])

"""Programs of message operations on simulated processes: running them under chosen schedules,
and letting TLC decide whether what was observed is a behaviour of the specification."""
import itertools
import json
import os
import tempfile
import shutil
import vlib

LOCAL = ("pack", "unpack", "reset", "mark", "const", "comm", "assign", "copy", "renew", "wait", "sent", "who")


def optext(o):
    k = o["op"]
    if k == "pack":
        a = [o["b"] - 1] + o["v"]
    elif k == "unpack":
        a = [o["b"] - 1, o["k"]]
    elif k in ("const", "comm"):
        a = [o["b"] - 1, o["v"]]
    elif k in ("assign", "copy"):
        a = [o["b"] - 1, o["s"] - 1]
    elif k in ("send", "isend"):
        a = [o["b"] - 1, o["d"], o["t"], o["how"]]
    elif k == "get" or k == "waiting":
        a = [o["b"] - 1, o["p"], o["t"]]
    elif k == "sendrecv":
        a = [o["b"] - 1, o["d"], o["t"], o["p"], o["rt"]]
    elif k == "bcast":
        a = [o["b"] - 1, o["root"], o["how"]]
    elif k in ("gather", "scatter"):
        a = [o["b"] - 1, o["root"]]
    elif k == "aisend":
        a = [o["i"] - 1, o["d"], o["t"]] + o["v"]
    elif k[0] == "a" or k == "who":
        a = []
    else:
        a = [o["b"] - 1]
    return ",".join([k] + [str(x) for x in a])


def text(prog):
    return "|".join(";".join(optext(o) for o in p) or "-" for p in prog)


def events(prog, log):
    ev = [{"ph": "restart", "n": len(prog)}]
    for e in log:
        if e["ph"] == "call":
            ev.append({"ph": "call", "r": e["r"], "o": prog[e["r"]][e["k"] - 1]})
        elif e["ph"] == "ret":
            ev.append({"ph": "ret", "r": e["r"], "obs": e["obs"]})
        elif e["ph"] == "stuck":
            ev.append({"ph": "stuck", "who": e["who"]})
        else:
            ev.append(e)
    return ev


class Runner:
    """Runs lines on the driver, several at a time."""

    def __init__(self, ctx, exe):
        self.ctx, self.exe = ctx, exe

    def run(self, lines):
        """replies of the lines that ran, and what happened to the one after them"""
        d = tempfile.mkdtemp(dir=self.ctx.work)
        objs, fail = vlib.run_script(self.ctx, self.exe, lines, timeout=200, cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        return objs, fail


def judge(ctx, runs, label, module="MPITrace", to_events=events, show=text):
    """runs: [(prog, reply)]; one violation at most"""
    def one(rs):
        evs, start = [], []
        for i, (prog, reply) in enumerate(rs):
            e = to_events(prog, reply["log"])
            start += [i] * len(e)
            evs += e
        if not evs:
            return None
        bad = vlib.validate_trace(ctx, module, module + ".cfg", evs)
        if bad is None:
            return None
        i = start[min(bad, len(start) - 1)]
        k = start.index(i)
        return (rs[i], evs[k:bad + 1])
    res = [x for x in vlib.parallel(one, [runs[i::vlib.NCPU] for i in range(vlib.NCPU)]) if x]
    ctx.traces += len(runs)
    ctx.events += sum(len(r["log"]) for _, r in runs)
    for (prog, reply), evs in res[:2]:
        ctx.violation("%s: the specification has no such step: %s" % (label, json.dumps(evs[-1])[:600]),
                      {"programs": show(prog), "choices": reply["choices"], "events": evs})
    ctx.enough()


def random_runs(ctx, exe, progs, label, seeds, **kw):
    lines = [(p, "run %d %d - %s" % (len(p), s, text(p))) for p in progs for s in seeds(p)]
    execute(ctx, exe, lines, label, **kw)


def execute(ctx, exe, lines, label, **kw):
    runs = []

    def chunk(ls):
        objs, fail = Runner(ctx, exe).run([l for _, l in ls])
        if fail or len(objs) < len(ls):
            return (ls[min(len(objs), len(ls) - 1)][1], fail, [])
        return (None, None, [(p, o) for (p, _), o in zip(ls, objs)])
    for l, fail, rs in vlib.parallel(chunk, [lines[i::vlib.NCPU] for i in range(vlib.NCPU) if lines[i::vlib.NCPU]]):
        if l:
            ctx.violation("%s: %s" % (label, fail or "output ends early"), {"run": l, "observed": fail})
        runs += rs
    ctx.enough()
    judge(ctx, runs, label, **kw)
    if lines:
        ctx.sample({"kind": "programs run under chosen schedules and validated (%s)" % label, "run": lines[0][1][:300]})
    return runs


def every_schedule(ctx, exe, prog, label, limit, line=None, **kw):
    """All sequences of choices, depth first; returns (number of runs, complete)."""
    line = line or (lambda pre: "run %d -1 %s %s" % (len(prog), ",".join(map(str, pre)) or "-", text(prog)))
    frontier, runs, seen = [[]], [], set()
    r = Runner(ctx, exe)
    n = 0
    while frontier and n < limit:
        batch, frontier = frontier[:64], frontier[64:]
        objs, fail = r.run([line(p) for p in batch])
        if fail or len(objs) < len(batch):
            ctx.violation("%s: %s" % (label, fail or "output ends early"), {"run": line(batch[min(len(objs), len(batch) - 1)]), "observed": fail})
            ctx.enough()
            return n, False
        n += len(batch)
        new = []
        for pre, o in zip(batch, objs):
            key = json.dumps(o["log"])
            if key not in seen:
                seen.add(key)
                runs.append((prog, o))
            ch = o["choices"]
            for i in range(len(pre), len(ch)):
                for c in range(1, ch[i][0]):
                    new.append([x[1] for x in ch[:i]] + [c])
        frontier = new + frontier
    judge(ctx, runs, label, **kw)
    return n, not frontier


# ---------------------------------------------------------------------------------- programs
class Gen:
    """Programs that make progress whatever the schedule, unless noted: every receive is emitted
    after the send it is meant for."""

    def __init__(self, rng, n):
        self.rng, self.n = rng, n
        self.prog = [[] for _ in range(n)]
        self.st = [[self.blank() for _ in range(2)] for _ in range(n)]
        self.arr = [[0, 0, 0] for _ in range(n)]
        self.val = 0
        self.odd = rng.random() < .25       # receives from anyone with any tag, also when that may end in waiting for ever

    def blank(self):
        return dict(len=0, pos=0, out=False, marks=0, dirty=False, const=0, comm=0)

    def emit(self, r, **o):
        self.prog[r].append(o)

    def fresh(self, k):
        v = []
        for _ in range(k):
            self.val += 1
            v.append(self.rng.choice((1, 1, -1)) * self.val)
        return v

    def free(self, r, b):
        """the buffer is not being sent"""
        s = self.st[r][b - 1]
        if s["out"]:
            self.emit(r, op=self.rng.choice(("wait", "wait", "renew")), b=b)
            if self.prog[r][-1]["op"] == "renew":
                self.st[r][b - 1] = self.blank()
            s = self.st[r][b - 1]
            s["out"] = False
        return s

    def pack(self, r, b, k=None):
        s = self.free(r, b)
        v = self.fresh(self.rng.choice((0, 1, 1, 2, 5, 40)) if k is None else k)
        if v:
            self.emit(r, op="pack", b=b, v=v)
        s["len"] += len(v)

    def refill(self, r, b):
        s = self.free(r, b)
        if self.rng.random() < .6 or s["len"] > 60:
            self.emit(r, op="reset", b=b)
            s.update(len=0, pos=0, marks=0, dirty=False)
        self.pack(r, b)

    def setcomm(self, r, b, c):
        s = self.free(r, b)
        if s["comm"] != c:
            self.emit(r, op="comm", b=b, v=c)
            s["comm"] = c

    def read(self, r, b):
        s = self.st[r][b - 1]
        if not s["out"] and s["pos"] is not None and s["len"] > s["pos"] and self.rng.random() < .5:
            k = self.rng.randrange(1, s["len"] - s["pos"] + 1)
            self.emit(r, op="unpack", b=b, k=k)
            s["pos"] += k

    def received(self, r, b, ln):
        s = self.st[r][b - 1]
        s.update(len=ln, pos=0, dirty=True)
        self.read(r, b)

    def message(self):
        rng = self.rng
        a, z = rng.sample(range(self.n), 2)
        b = rng.choice((1, 2))
        c = int(rng.random() < .15)
        t = rng.choice((0, 0, 1, 7))
        self.setcomm(a, b, c)
        self.refill(a, b)
        s = self.st[a][b - 1]
        ln = s["len"]
        op = rng.choice(("send", "send", "isend"))
        self.emit(a, op=op, b=b, d=z, t=t, how=rng.randrange(2))
        s.update(len=0, pos=None, out=op == "isend", dirty=True)
        zb = rng.choice((1, 2))
        self.setcomm(z, zb, c)
        self.free(z, zb)
        if rng.random() < .2:
            self.emit(z, op="waiting", b=zb, p=rng.choice((a, -1)), t=rng.choice((t, -1)))
        if self.odd:
            # the content may be another's; it is not read
            self.emit(z, op="get", b=zb, p=rng.choice((a, -1, -1)), t=rng.choice((t, -1, -1)))
            self.st[z][zb - 1].update(len=0, pos=None, dirty=True)
        else:
            self.emit(z, op="get", b=zb, p=a, t=t)
            self.received(z, zb, ln)

    def fan(self):
        """messages of several to one, who takes them in any order"""
        rng = self.rng
        z = rng.randrange(self.n)
        t = 100 + len(self.prog[z])
        ss = [r for r in range(self.n) if r != z]
        for a in ss:
            self.setcomm(a, 1, 0)
            self.refill(a, 1)
            op = rng.choice(("send", "isend"))
            self.emit(a, op=op, b=1, d=z, t=t, how=rng.randrange(2))
            self.st[a][0].update(len=0, pos=None, out=op == "isend", dirty=True)
        self.setcomm(z, 2, 0)
        for _ in ss:
            self.free(z, 2)
            self.emit(z, op="get", b=2, p=-1, t=t)
            self.st[z][1].update(len=0, pos=None, dirty=True)

    def exchange(self):
        """everyone sends to the next and receives from the one before"""
        rng = self.rng
        k = rng.randrange(1, self.n)
        b = rng.choice((1, 2))
        t, rt = rng.choice(((0, 0), (0, 0), (3, 3), (4, -1)))
        perm = rng.random() < .3 and self.n > 2
        tags = [rng.choice((0, 5, 9)) for _ in range(self.n)]
        lens = {}
        for r in range(self.n):
            self.setcomm(r, b, 0)
            self.refill(r, b)
            lens[r] = self.st[r][b - 1]["len"]
        for r in range(self.n):
            src = (r - k) % self.n
            if perm:   # tags of their own
                self.emit(r, op="sendrecv", b=b, d=(r + k) % self.n, t=tags[r], p=src, rt=rng.choice((tags[src], tags[src], -1)) if not self.odd else -1)
            else:
                self.emit(r, op="sendrecv", b=b, d=(r + k) % self.n, t=t, p=src if rng.random() < .6 else -1 if self.odd else src, rt=rt)
            if self.odd or rt == -1 or (perm and self.prog[r][-1]["rt"] == -1):
                self.st[r][b - 1].update(len=0, pos=None, dirty=True)
            else:
                self.received(r, b, lens[src])

    def together(self):
        rng = self.rng
        b = rng.choice((1, 2))
        c = int(rng.random() < .15)
        kind = rng.choice(("bcast", "bcast", "gather", "gather", "scatter", "scatter"))
        root = rng.randrange(self.n)
        const = int(rng.random() < .4)
        size = rng.choice((0, 1, 3, 30))
        lens, parts = [], None
        for r in range(self.n):
            self.setcomm(r, b, c)
            s = self.free(r, b)
            if s["const"] != const:
                self.emit(r, op="const", b=b, v=const)
                s["const"] = const
            if kind == "scatter" or const or s["dirty"] and rng.random() < .5:
                # marks of earlier use are not to be relied on
                if s["dirty"] or s["marks"] or s["len"] or rng.random() < .2:
                    self.emit(r, op="reset", b=b)
                    s.update(len=0, pos=0, marks=0, dirty=False)
            if kind == "scatter":
                if r == root or rng.random() < .3:
                    p = []
                    for q in range(self.n):
                        self.pack(r, b, size if const else None)
                        self.emit(r, op="mark", b=b)
                        p.append(s["len"])
                    if r == root:
                        parts = [p[0]] + [p[i] - p[i - 1] for i in range(1, self.n)]
                    if rng.random() < .1:
                        self.pack(r, b, 2)
                elif rng.random() < .4:
                    self.pack(r, b)
            else:
                self.pack(r, b, size if const else None)
            lens.append(s["len"])
        for r in range(self.n):
            o = dict(op=kind, b=b, root=root)
            if kind == "bcast":
                o["how"] = rng.randrange(2)
            self.emit(r, **o)
            s = self.st[r][b - 1]
            if kind == "bcast":
                self.received(r, b, lens[root])
            elif kind == "scatter":
                self.received(r, b, parts[r])
                s.update(marks=0, dirty=False)
            elif r == root:
                self.received(r, b, sum(lens))
            else:
                s.update(len=0, pos=None, dirty=True)

    def group(self):
        """a group of asynchronous messages; the receivers first, or last"""
        rng = self.rng
        a = rng.randrange(self.n)
        t = 200 + len(self.prog[a])
        us = rng.sample((1, 2, 3), rng.randrange(1, 4))
        dest = []
        for i in us:
            d = rng.choice([r for r in range(self.n) if r != a])
            v = self.fresh(rng.choice((1, 3, 20)))
            self.emit(a, op="aisend", i=i, d=d, t=t, v=v)
            dest.append((d, v))
            self.arr[a][i - 1] = 1
        for k in range(rng.randrange(0, 4)):
            self.emit(a, op=rng.choice(("atestall", "atestany", "atestsome", "awaitany" if k == 0 else "atestany", "awaitsome" if k == 0 else "atestsome")))
        for d, v in dest:
            b = rng.choice((1, 2))
            self.setcomm(d, b, 0)
            self.free(d, b)
            self.emit(d, op="get", b=b, p=a, t=t)
            self.st[d][b - 1].update(len=0, pos=None, dirty=True)
        self.emit(a, op=rng.choice(("awaitall", "arenew")))

    def own(self):
        rng = self.rng
        r, b = rng.randrange(self.n), rng.choice((1, 2))
        s = self.st[r][b - 1]
        k = rng.choice(("sent", "who", "assign", "copy", "self", "renew", "selfassign", "waitnothing", "selfex"))
        if k == "sent":
            # what it says is not known, so the buffer is waited for before it is used again
            self.emit(r, op="sent", b=b)
        elif k == "who":
            self.emit(r, op="who")
        elif k in ("assign", "copy"):
            self.free(r, b)
            self.free(r, 3 - b)
            self.emit(r, op=k, b=b, s=3 - b)
            self.st[r][b - 1] = dict(self.st[r][2 - b], pos=0 if k == "copy" else None, dirty=True)
        elif k == "selfassign":
            self.free(r, b)
            self.emit(r, op="assign", b=b, s=b)
            self.st[r][b - 1]["pos"] = None
        elif k == "self":
            self.free(r, b)
            self.emit(r, op=rng.choice(("send", "isend")), b=b, d=r, t=0, how=rng.randrange(2))
            self.read(r, b)
        elif k == "selfex":
            self.free(r, b)
            self.emit(r, op="sendrecv", b=b, d=r, t=0, p=-1, rt=-1)
        elif k == "waitnothing":
            self.free(r, b)
            self.emit(r, op="wait", b=b)
        else:
            self.emit(r, op="renew", b=b)
            self.st[r][b - 1] = self.blank()

    def make(self, steps, kinds=None):
        f = {"message": self.message, "fan": self.fan, "exchange": self.exchange, "together": self.together, "group": self.group, "own": self.own}
        for _ in range(steps):
            f[self.rng.choices(*(kinds or (("message", "fan", "exchange", "together", "group", "own"), (4, 1, 2, 4, 2, 3))))[0]]()
        return self.prog


def small(rng):
    """Programs small enough for all their schedules."""
    o = lambda op, **k: dict(k, op=op)
    pk = lambda v, b=1: o("pack", b=b, v=[v])
    snd = lambda d, t=0: o("send", b=1, d=d, t=t, how=0)
    isn = lambda d, t=0: o("isend", b=1, d=d, t=t, how=1)
    get = lambda p=-1, t=-1, b=2: o("get", b=b, p=p, t=t)
    un = lambda b=2: o("unpack", b=b, k=1)
    mk = o("mark", b=1)
    out = []
    for s in (snd, isn):
        out.append(("two to one", [[pk(1), s(2)], [pk(2), s(2)], [get(), un(), get(), un()]]))
        out.append(("order of one", [[pk(1), s(1), o("renew", b=1), pk(2), pk(3), s(1)], [get(), get()]]))
        out.append(("selective", [[pk(1), s(1, 5), o("renew", b=1), pk(2), s(1, 6)], [o("waiting", b=2, p=0, t=6), get(t=5), get(t=6)]]))
        out.append(("crossing", [[pk(1), s(1), get()], [pk(2), s(0), get()]]))
    out.append(("stuck", [[get(p=1)], [pk(1), snd(0, 3), get(t=9)]]))
    out.append(("exchange", [[pk(1), o("sendrecv", b=1, d=1, t=0, p=1, rt=0)], [pk(2), pk(3), o("sendrecv", b=1, d=0, t=0, p=-1, rt=-1)]]))
    out.append(("exchange among three", [[pk(1), o("sendrecv", b=1, d=1, t=3, p=-1, rt=-1)], [pk(2), pk(7), o("sendrecv", b=1, d=0, t=4, p=-1, rt=-1), get()], [pk(3), pk(4), pk(5), snd(1, 4)]]))
    out.append(("other tags", [[pk(1), o("sendrecv", b=1, d=1, t=3, p=1, rt=4)], [pk(2), o("sendrecv", b=1, d=0, t=4, p=0, rt=3)]]))
    for c in (0, 1):
        k = [o("const", b=1, v=c)] if c else []
        out.append(("broadcast", [k + [pk(1), o("bcast", b=1, root=1, how=0), un(1)], k + [pk(2), o("bcast", b=1, root=1, how=1), un(1)]]))
        out.append(("gather", [k + [pk(i + 1), o("gather", b=1, root=1)] + ([o("unpack", b=1, k=2)] if i else []) for i in range(2)]))
        out.append(("scatter twice", [k + [pk(1), mk, pk(2), mk, o("scatter", b=1, root=0), un(1), o("reset", b=1), pk(3), mk, pk(4), mk, o("scatter", b=1, root=0), un(1)],
                                      k + [o("scatter", b=1, root=0), un(1), o("scatter", b=1, root=0), un(1)]]))
    ai = lambda i, d, v: o("aisend", i=i, d=d, t=0, v=[v])
    for w in ("awaitall", "awaitany", "awaitsome", "atestall", "atestany", "atestsome"):
        out.append((w, [[ai(1, 1, 4), ai(3, 1, 5), o(w), o(w), o("arenew")], [get(), get()]]))
    return out

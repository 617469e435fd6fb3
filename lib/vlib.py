"""Shared machinery: workspaces built from /repo, TLC runs, conformance drivers, evidence."""
import collections, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The machinery itself failed (exit 2); never a verdict about the code."""


class Enough(Exception):
    """Violations have been recorded and much time has passed: stop looking for more."""


class Violation(Exception):
    def __init__(self, what, replay=None):
        Exception.__init__(self, what)
        self.what = what
        self.replay = replay


def sh(cmd, cwd=None, timeout=None, env=None, input=None, check=False):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         shell=isinstance(cmd, str), executable="/bin/bash" if isinstance(cmd, str) else None,
                         start_new_session=True)
    try:
        out, err = p.communicate(input, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = "timeout"
    if check and rc != 0:
        raise CheckError("command failed (%s): %s\n%s\n%s" % (rc, cmd, out[-3000:], err[-3000:]))
    return rc, out, err


class Ctx:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vw-%s-" % pid)
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.cov = collections.OrderedDict()
        self.assumptions = []
        self.samples = []
        self.violations = []      # (what, replay path)
        self.known = load_known(pid)
        self.known_hit = []
        self.level = None
        self._cd = None
        self._lock = threading.Lock()
        self._nrep = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.models = []
        # the spec directory is copied so that TLC's droppings never land in /verif
        self.spec = os.path.join(self.work, "spec")
        shutil.copytree(SPEC, self.spec)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.id, time.time() - self.t0), *a, flush=True)

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def cleanup(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)

    # ---------------------------------------------------------------- workspace
    @property
    def cd(self):
        """A private copy of /repo's working tree with the tools and headers built in it."""
        with self._lock:
            if self._cd is None:
                d = os.path.join(self.work, "cd")
                self._cd = make_workspace(d)
                self.log("workspace built")
        return self._cd

    # ---------------------------------------------------------------- verdicts
    def violation(self, what, replay):
        """replay: JSON-serialisable description, enough to re-run the failing case."""
        key = json.dumps(replay, sort_keys=True, default=str)
        for k in self.known:
            if k.get("match") and re.search(k["match"], what):
                if k["id"] not in [x["id"] for x in self.known_hit]:
                    self.known_hit.append(k)
                return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        self._nrep += 1
        path = os.path.join(d, "%s-%d.json" % (self.id, self._nrep))
        with open(path, "w") as f:
            json.dump({"property": self.id, "what": what, "replay": replay}, f, indent=1, default=str)
        self.violations.append((what, path))

    def enough(self):
        if self.violations and time.time() - self.t0 > (60 if self.quick else 600):
            raise Enough()

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def finish(self):
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict(self.cov), "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        c = ev["coverage"]
        if self.level in ("model_checking", "exploration"):
            c.setdefault("states", self.states)
            c.setdefault("transitions", self.transitions)
            c.setdefault("traces_validated_against_impl", self.traces)
            c.setdefault("implementation_events", self.events)
            c.setdefault("models", self.models)
            c.setdefault("samples", self.samples)
        if self.known_hit:
            c["known_findings"] = [k["id"] for k in self.known_hit]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")


def load_known(pid):
    """known_findings.txt:  known: property=<id> id=<KF..> match=<regex> what=<...>
                            fixed: property=<id> <commit> <what failed>   (suppresses nothing)"""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return res
    for line in open(path):
        m = re.match(r"known: property=(\S+) id=(\S+) match=(.*?) what=(.*)$", line.strip())
        if m and m.group(1) == pid:
            res.append({"id": m.group(2), "match": m.group(3), "what": m.group(4)})
    return res


def make_workspace(d):
    os.makedirs(d)
    rc, out, err = sh(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-co", "--exclude-standard"])
    if rc != 0 or not out.strip():
        raise CheckError("git ls-files failed: " + err)
    for f in out.split("\n"):
        src = os.path.join(REPO, f)
        if not f or "/" in f or not os.path.isfile(src):
            continue
        shutil.copy2(src, os.path.join(d, f), follow_symlinks=True)
    env = clean_env()
    rc, out, err = sh("rm -f functiondb.h && touch functiondb.sh && make functiondb.h unpack_base.h json_unpack_base.h "
                      "{dump,pack,json_pack,random_init,RESTProcess,xml_pack,xsd_generate,typeName}-allCDs.h && "
                      "make -j8 build CPLUSPLUS='g++ -std=c++98'", cwd=d, timeout=600, env=env)
    if rc != 0 or not os.path.exists(os.path.join(d, "xdr_pack.o")):
        raise CheckError("the workspace does not build:\n" + out[-2000:] + err[-4000:])
    return d


def clean_env(**kw):
    e = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "CPLUS_INCLUDE_PATH", "CPATH", "VERIF_SEED", "VERIF_TIER")}
    e["LC_ALL"] = "C"
    e.update(kw)
    return e


# -------------------------------------------------------------------- compiling
CDFLAGS = {
    # what the repository's own Makefiles use for each family of descriptors
    "pack": ["-nodef", "-onbase"],
    "xml_pack": ["-nodef", "-respect_private"],
    "typeName": ["-typeName", "-nodef"],
}


def gen_cd(cd, header, actions, out, flags, timeout=120, tool=None):
    """Run the built classdesc tool on a header."""
    cmd = [tool or os.path.join(cd, "classdesc")] + flags + ["-I", cd, "-i", header] + actions
    p = sh(cmd, timeout=timeout, cwd=os.path.dirname(out))
    rc, o, e = p
    if rc == 0:
        with open(out, "w") as f:
            f.write(o)
    return rc, o, e


def compile_cxx(cd, srcs, out, std="c++17", defs=(), san="address", incs=(), libs=("-ltirpc",), opt="-O1", cxx="g++", timeout=600, extra=()):
    cmd = [cxx, "-std=" + std, "-g1", opt, "-w", "-fno-omit-frame-pointer"]
    if san:
        cmd += ["-fsanitize=" + san]
    cmd += ["-I" + i for i in incs] + ["-I" + cd, "-I/usr/include/tirpc", "-DXDR_PACK", "-DHAVE_LONGLONG", "-DTR1"]
    cmd += ["-D" + d for d in defs] + list(extra) + list(srcs) + ["-o", out, "-Wl,--no-as-needed"] + list(libs)
    rc, o, e = sh(cmd, timeout=timeout, env=clean_env())
    return rc, (o + e)


def must_compile(*a, **kw):
    rc, msg = compile_cxx(*a, **kw)
    if rc == "timeout":
        raise CheckError("compiling the harness took too long or too much")
    if rc != 0:
        # the drivers use the library as its users do
        raise Violation("a program that uses the library as documented does not compile:\n" + msg[-3000:], {"sources": [str(x) for x in a[1]], "message": msg[-6000:]})


SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=1",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}


def run_harness(exe, script, timeout=120, cwd=None, args=(), env=None):
    e = clean_env(**SAN_ENV)
    if env:
        e.update(env)
    # processor time, not elapsed time, tells whether a driver hangs: the machine may be busy
    return sh(["prlimit", "--cpu=%d" % timeout, exe] + list(args), input=script, timeout=max(600, 2 * timeout), cwd=cwd or os.path.dirname(exe), env=e)


# -------------------------------------------------------------------- TLC
class TlcResult:
    pass


def tlc(ctx, module, cfg, workers="auto", timeout=600, env=None, simulate=None, depth=None, heap="4g", deadlock=False, seed=None, on_line=None, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=ctx.work)
    cfgp = os.path.join(ctx.spec, cfg)
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss32m", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-config", cfgp, "-metadir", meta,
           "-workers", str(workers), "-noTE"]
    if not deadlock:
        cmd.append("-deadlock")
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
        if seed is not None:
            cmd += ["-seed", str(seed)]
    if depth:
        cmd += ["-depth", str(depth)]
    cmd += list(extra)
    cmd.append(os.path.join(ctx.spec, module + ".tla"))
    e = clean_env()
    if env:
        e.update(env)
    t = time.time()
    r = TlcResult()
    r.rc, r.out, r.err = sh(cmd, cwd=ctx.spec, timeout=timeout, env=e)
    r.wall = time.time() - t
    full = r.out
    lines = full.split("\n")
    r.lines = [l for l in lines if l.startswith('"')]
    r.out = "\n".join(l[:2000] for l in lines if not l.startswith('"') or '"MATCHED' in l)   # what the specification printed is kept apart
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.search(r"depth of the complete state graph search is (\d+)", r.out)
    r.depth = int(m.group(1)) if m else None
    r.violated = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|Deadlock reached", r.out)
    r.ok = "No error has been found" in r.out
    return r


def model_check(ctx, module, cfg, **kw):
    """Exhaustive check of the specification itself. A failure here is a fault of the spec: an error, not a verdict."""
    r = tlc(ctx, module, cfg, **kw)
    if not r.ok:
        raise CheckError("TLC does not accept %s/%s (rc %s):\n%s\n%s" % (module, cfg, r.rc, r.out[-5000:], r.err[-1500:]))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.models.append({"model": cfg, "distinct_states": r.distinct, "states_generated": r.generated, "depth": r.depth, "wall_s": round(r.wall, 1)})
    ctx.log("TLC %s: %d distinct states, %d generated, %.1fs" % (cfg, r.distinct, r.generated, r.wall))
    return r


def emitted(r):
    """Values printed by the specification with PrintT(<<"EMIT", ToJson(x)>>) or PrintT(ToJson(x))."""
    res = []
    for line in r.lines:
        if line.endswith('"') and len(line) > 2:
            try:
                res.append(json.loads(json.loads(line)))
            except ValueError:
                s = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
                res.append(json.loads(s))
    return res


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class Graph:
    """State graph emitted by TLC: transitions [s, ev, t]."""
    def __init__(self, trans, init):
        self.ids = {}
        self.succ = collections.defaultdict(dict)   # node -> {ev string: (ev, node)}
        self.n = 0
        for s, ev, t in trans:
            a, b = self.node(s), self.node(t)
            k = canon(ev)
            if k not in self.succ[a]:
                self.succ[a][k] = (ev, b)
                self.n += 1
        self.init = self.node(init)

    def node(self, s):
        k = canon(s)
        if k not in self.ids:
            self.ids[k] = len(self.ids)
        return self.ids[k]

    def tours(self, maxlen, rng):
        """Walks from the initial state that together take every transition."""
        succ = {n: list(d.values()) for n, d in self.succ.items()}
        unseen = {n: list(range(len(l))) for n, l in succ.items()}
        for l in unseen.values():
            rng.shuffle(l)
        # BFS tree from init, for reaching a node that has untaken transitions
        parent = {self.init: None}
        order = [self.init]
        for n in order:
            for i, (ev, t) in enumerate(succ.get(n, ())):
                if t not in parent:
                    parent[t] = (n, i)
                    order.append(t)
        pending = [n for n in order if unseen.get(n)]
        walks = []
        while pending:
            target = pending[0]
            if not unseen.get(target):
                pending.pop(0)
                continue
            path = []
            n = target
            while parent[n] is not None:
                n, i = parent[n][0], parent[n][1]
                path.append((n, i))
            path.reverse()
            walk = [succ[n][i][0] for n, i in path]
            for n, i in path:
                if i in unseen[n]:
                    unseen[n].remove(i)
            n = target
            while len(walk) < maxlen:
                if unseen.get(n):
                    i = unseen[n].pop()
                    ev, t = succ[n][i]
                    walk.append(ev)
                    n = t
                    continue
                # nearest node with an untaken transition, bounded search
                q, seen, found = [(n, ())], {n}, None
                for m, p in q:
                    if len(p) > 3 or len(q) > 400:
                        break
                    for i, (ev, t) in enumerate(succ.get(m, ())):
                        if t in seen:
                            continue
                        seen.add(t)
                        if unseen.get(t):
                            found = p + ((m, i),)
                            dest = t
                            break
                        q.append((t, p + ((m, i),)))
                    if found:
                        break
                if not found:
                    break
                for m, i in found:
                    walk.append(succ[m][i][0])
                n = dest
            walks.append(walk)
        return walks

    def random_walks(self, num, length, rng):
        succ = {n: list(d.values()) for n, d in self.succ.items()}
        walks = []
        for _ in range(num):
            n, w = self.init, []
            for _ in range(length):
                if not succ.get(n):
                    break
                ev, n = rng.choice(succ[n])
                w.append(ev)
            walks.append(w)
        return walks


# -------------------------------------------------------------------- trace validation
def validate_trace(ctx, module, cfg, events, env=None, timeout=600, heap="6g", batch=None):
    """Let TLC decide whether the recorded events are a behaviour of the specification.
    Returns None or the index of the first event the specification cannot explain."""
    path = os.path.join(ctx.work, "trace-%d.ndjson" % random.randrange(1 << 40))
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    e2 = {"TRACE": path}
    if env:
        e2.update(env)
    r = tlc(ctx, module, cfg, workers=1, timeout=timeout, env=e2, heap=heap)
    m = re.search(r'"MATCHED (\d+)"', r.out)
    ok = r.ok
    bad = None
    if not ok:
        # the postcondition prints how far it got
        m = re.findall(r'"MATCHED (\d+)"', r.out)
        if not m:
            raise CheckError("trace validation failed to run (%s): rc=%s\n%s\n%s\n%s" % (module, r.rc, "\n".join(x[:800] for x in re.findall(r"^Error:[^@]*?(?=^Error|^State|^@|\\Z)", r.out, re.M)), r.out[-2000:], r.err[-1500:]))
        bad = int(m[-1])
    ctx.states += r.distinct
    ctx.transitions += r.generated
    os.unlink(path)
    return bad


def parallel(fn, items, n=None):
    with ThreadPoolExecutor(max_workers=n or NCPU) as ex:
        return list(ex.map(fn, items))


# -------------------------------------------------------------------- conformance drivers
def crash_text(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
    if m:
        frames = re.findall(r"#\d+ 0x\w+ in ([^\n]*)", err)[:6]
        return "memory error: %s | %s" % (m.group(1)[:160], " < ".join(f[:90] for f in frames))
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        return "undefined behaviour: " + m.group(1)
    if rc == "timeout" or rc in (-24, -9, 152, 137):
        return "does not terminate"
    return "terminated abnormally (status %s): %s" % (rc, err.strip()[-400:])


def run_script(ctx, exe, lines, args=(), timeout=120, env=None, cwd=None):
    """Feed lines to a driver. Returns (list of parsed output objects, failure text or None)."""
    rc, out, err = run_harness(exe, "\n".join(lines) + "\n", timeout=timeout, args=args, env=env, cwd=cwd)
    objs = []
    for l in out.split("\n"):
        if l.startswith("{"):
            try:
                objs.append(json.loads(l))
            except ValueError:
                break
    fail = None
    if rc != 0 or not objs or "end" not in objs[-1]:
        fail = crash_text(rc, err)
    else:
        objs.pop()
    return objs, fail


def replay_walks(ctx, exe, walks, to_line, label, args=(), chunk=4000, timeout=60, env=None, maxviol=3, restart="restart", ctx_info=None, observed=None):
    """Step the behaviours predicted by the specification through the implementation and compare
    the observation after every step."""
    chunks, cur, n = [], [], 0
    for w in walks:
        cur.append(w)
        n += len(w) + 1
        if n >= chunk:
            chunks.append(cur)
            cur, n = [], 0
    if cur:
        chunks.append(cur)

    found = []

    def one(ws):
        if found:
            return None
        r = one_(ws)
        if r:
            found.append(1)
        return r

    def one_(ws):
        lines, where = [], []
        for wi, w in enumerate(ws):
            lines.append(restart)
            where.append((wi, -1))
            for i, ev in enumerate(w):
                lines.append(to_line(ev))
                where.append((wi, i))
        d = tempfile.mkdtemp(dir=ctx.work)
        objs, fail = run_script(ctx, exe, lines, args=args, timeout=timeout, env=env, cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        for j, o in enumerate(objs):
            if j >= len(where):
                return None
            wi, i = where[j]
            if i < 0:
                continue
            if observed:
                o = observed(o)
            if o != ws[wi][i]["obs"]:
                return ("after %s: predicted %s, observed %s" % (to_line(ws[wi][i]), canon(ws[wi][i]["obs"])[:600], canon(o)[:600]), ws[wi][:i + 1], o)
        if fail or len(objs) != len(lines):
            j = min(len(objs), len(where) - 1)
            wi, i = where[j]
            return ("%s during %s" % (fail or "output ends early", lines[j]), ws[wi][:i + 1], fail)
        return None

    bad = [x for x in parallel(one, chunks) if x]
    ctx.traces += len(walks)
    ctx.events += sum(len(w) for w in walks)
    for what, prefix, got in bad[:maxviol]:
        ctx.violation("%s: %s" % (label, what), {"driver": os.path.basename(exe), "args": list(args), "calls": [to_line(e) for e in prefix], "observed": got,
                                                "predicted": prefix[-1].get("obs") if prefix else None, "context": ctx_info})
    ctx.enough()
    if walks:
        ctx.sample({"kind": "behaviour of the specification replayed (%s)" % label, "calls": [to_line(e) for e in walks[len(walks) // 2][:8]]})
    return not bad


def record_and_validate(ctx, exe, traces, to_line, label, module, cfg, args=(), timeout=60, env=None, tlc_env=None, restart="restart", merge=None, tlc_timeout=900, ctx_info=None, groups=NCPU):
    """Run driver-chosen calls on the implementation, log the observations, and let TLC decide
    whether the specification has such a behaviour.  traces: list of lists of events without 'obs'."""
    def one(tr):
        lines, evs = [], []
        for t in tr:
            lines.append(restart)
            evs.append({"op": "restart"})
            for e in t:
                lines.append(to_line(e))
                evs.append(e)
        d = tempfile.mkdtemp(dir=ctx.work)
        objs, fail = run_script(ctx, exe, lines, args=args, timeout=timeout, env=env, cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        rec = []
        for e, o in zip(evs, objs):
            if e["op"] == "restart":
                rec.append(e)
            else:
                x = dict(e)
                x.update(merge(e, o) if merge else {"obs": o})
                rec.append(x)
        if fail or len(objs) != len(lines):
            j = min(len(objs), len(lines) - 1)
            start = max(k for k in range(j + 1) if lines[k] == restart)
            return ("%s during %s" % (fail or "output ends early", lines[j]), lines[start:j + 1], None)
        bad = validate_trace(ctx, module, cfg, rec, env=tlc_env, timeout=tlc_timeout)
        if bad is not None:
            start = max(k for k in range(bad + 1) if lines[k] == restart)
            return ("the specification has no such step: %s observed %s" % (lines[bad][:300], canon({k: v for k, v in rec[bad].items() if k not in evs[bad]})[:700]), lines[start:bad + 1], rec[bad])
        return None

    bad = [x for x in parallel(one, [traces[i::groups] for i in range(groups) if traces[i::groups]]) if x]
    ctx.traces += len(traces)
    ctx.events += sum(len(t) for t in traces)
    for what, prefix, got in bad[:3]:
        ctx.violation("%s: %s" % (label, what), {"driver": os.path.basename(exe), "args": list(args), "calls": prefix, "observed": got, "context": ctx_info})
    ctx.enough()
    if traces:
        ctx.sample({"kind": "recorded execution validated (%s)" % label, "calls": [to_line(e)[:100] for e in traces[0][:8]]})
    return not bad

"""Universes of C++ types: the header the classdesc processor is run on, the independent accessors the
drivers use to set and observe objects, and the type table given to the specification.

Type descriptors (as given to TLC):
  k: scalar | enum | str | arr | seq | set | map | pair | ptr | class | excl
  x: does the type contain excluded members;  z: does it serialise to nothing;  d: default value
Values: hex strings for scalars/enums/strings, nested sequences otherwise (ptr: [] or [v];
map: [[k,v]...]; class: [bases..., members...])."""
import random, struct

SCALARS = [("bool", 1), ("char", 1), ("signed char", 1), ("unsigned char", 1), ("short", 2), ("unsigned short", 2),
           ("int", 4), ("unsigned", 4), ("long", 8), ("unsigned long", 8), ("long long", 8), ("unsigned long long", 8),
           ("float", 4), ("double", 8), ("wchar_t", 4)]
WIDTH = dict(SCALARS)


def S(c):
    return {"k": "scalar", "c": c, "w": WIDTH[c], "cpp": c, "x": False, "z": False, "d": "00" * WIDTH[c]}


def STR(c="char"):
    return {"k": "str", "c": c, "cpp": "std::string" if c == "char" else "std::wstring", "x": False, "z": False, "d": "-"}


def ARR(e, n):
    return {"k": "arr", "e": e, "n": n, "cpp": None, "x": e["x"], "z": e["z"] or n == 0, "d": [e["d"]] * n}


def STDARR(e, n):
    return {"k": "arr", "c": "array", "e": e, "n": n, "cpp": "std::array<%s,%d>" % (e["cpp"], n), "x": e["x"], "z": False, "d": [e["d"]] * n}


def SEQ(c, e):
    return {"k": "seq", "c": c, "e": e, "cpp": "std::%s<%s >" % (c, e["cpp"]), "x": e["x"], "z": False, "d": []}


def SET(c, e):
    return {"k": "set", "c": c, "e": e, "cpp": "std::%s<%s >" % (c, e["cpp"]), "x": False, "z": False, "d": []}


def MAP(c, a, b):
    return {"k": "map", "c": c, "a": a, "b": b, "cpp": "std::%s<%s,%s >" % (c, a["cpp"], b["cpp"]), "x": b["x"], "z": False, "d": []}


def PAIR(a, b):
    return {"k": "pair", "a": a, "b": b, "cpp": "std::pair<%s,%s >" % (a["cpp"], b["cpp"]), "x": a["x"] or b["x"],
            "z": a["z"] and b["z"], "d": [a["d"], b["d"]]}


def PTR(c, e):
    return {"k": "ptr", "c": c, "e": e, "cpp": "%s<%s >" % ({"shared": "classdesc::shared_ptr", "unique": "std::unique_ptr"}[c], e["cpp"]),
            "x": e["x"], "z": False, "d": []}


def EXCL(e):
    return {"k": "excl", "e": e, "cpp": "classdesc::Exclude<%s >" % e["cpp"], "x": True, "z": True, "d": e["d"]}


def CONST(c, v):
    """a constant member: written like any other, and skipped when read"""
    b = (v % (1 << (8 * WIDTH[c]))).to_bytes(WIDTH[c], "little").hex()
    return {"k": "const", "c": c, "v": v, "cpp": "const " + c, "x": True, "z": False, "d": b}


def TUPLE(*ts):
    return {"k": "class", "c": "tuple", "cpp": "std::tuple<%s >" % ",".join(t["cpp"] for t in ts), "bases": [], "members": [],
            "m": list(ts), "x": any(t["x"] for t in ts), "z": False, "d": [t["d"] for t in ts]}


def ENUM(name, vals):
    """vals: list of (symbol, value)"""
    return {"k": "enum", "name": name, "vals": vals, "cpp": name, "x": False, "z": False, "d": "00000000"}


def CLASS(name, bases, members, cpp=None):
    """bases: class types; members: (name, type)"""
    ts = list(bases) + [t for _, t in members]
    return {"k": "class", "name": name, "bases": bases, "members": members, "cpp": cpp or name,
            "m": ts, "x": any(t["x"] for t in ts), "z": all(t["z"] for t in ts), "d": [t["d"] for t in ts]}


def has_unordered(t):
    if str(t.get("c", "")).startswith("unordered"):
        return True
    return any(has_unordered(u) for u in ([t[f] for f in ("e", "a", "b") if isinstance(t.get(f), dict)] + t.get("m", [])))


def tla(t):
    r = {"k": t["k"], "x": t["x"], "z": t["z"], "d": t["d"]}
    for f in ("e", "a", "b"):
        if f in t:
            r[f] = tla(t[f])
    if "m" in t:
        r["m"] = [tla(u) for u in t["m"]]
    # the encoded form starts with a length, and an entry takes space
    r["len"] = t["k"] in ("seq", "set", "map", "str") and not (t["k"] in ("seq", "set") and t["e"]["z"])
    return r


def sc_value(rng, c):
    w = WIDTH[c]
    if c == "bool":
        return rng.choice(("00", "01"))
    if c == "float":
        return struct.pack("<f", rng.choice((0.0, -0.0, 1.5, -3.25e10, 1e-40, float("inf"), rng.uniform(-10, 10)))).hex()
    if c == "double":
        return struct.pack("<d", rng.choice((0.0, -0.0, 0.1, -1e300, 5e-324, float("inf"), rng.uniform(-10, 10)))).hex()
    x = rng.random()
    if x < 0.3:
        b = (rng.choice((0, 1, -1, 2, 127, 128, 255, 256, -2)) % (1 << (8 * w))).to_bytes(w, "little")
    elif x < 0.4:
        b = bytes([0] * (w - 1) + [128])
    elif x < 0.5:
        b = bytes([255] * (w - 1) + [127])
    else:
        b = bytes(rng.randrange(256) for _ in range(w))
    if c == "wchar_t":
        b = b[:2] + b"\0\0"
    return b.hex()


def weight(t):
    if "wt" not in t:
        t["wt"] = (t["n"] if t["k"] == "arr" else 1) * sum(weight(t[f]) for f in ("e", "a", "b") if isinstance(t.get(f), dict)) + sum(weight(u) for u in t.get("m", [])) + 1
    return t["wt"]


def value(rng, t, big=False, depth=0):
    k = t["k"]
    if k == "scalar":
        return sc_value(rng, t["c"])
    if k == "enum":
        return struct.pack("<i", rng.choice(t["vals"])[1]).hex()
    lens = (0, 1, 2, 3, 5, 9) if depth < 2 else (0, 1, 1, 2) if depth < 4 else (0, 0, 1)
    if k in ("seq", "set", "map") and weight(t) > 40:
        lens = (0, 1, 1, 2)
    if k == "str":
        n = rng.choice((0, 1, 2, 3, 8, 30, 200 if not depth else 7))
        if big:
            n = rng.choice((n, 3000))
        if t["c"] == "char":
            return bytes(rng.choice((0, 10, 34, 38, 60, 65, 97, 127, 128, 255, rng.randrange(256))) for _ in range(n)).hex() or "-"
        return "".join(sc_value(rng, "wchar_t") for _ in range(n)) or "-"
    if k == "arr":
        return [value(rng, t["e"], False, depth + 1) for _ in range(t["n"])]
    if k in ("seq", "set"):
        n = rng.choice(lens)
        if big and t["e"]["k"] == "scalar":
            n = rng.choice((n, 600, 3000))
        return [value(rng, t["e"], False, depth + 1) for _ in range(n)]
    if k == "map":
        return [[value(rng, t["a"], False, depth + 1), value(rng, t["b"], False, depth + 1)] for _ in range(rng.choice(lens))]
    if k == "pair":
        return [value(rng, t["a"], False, depth + 1), value(rng, t["b"], False, depth + 1)]
    if k == "ptr":
        return [] if rng.random() < 0.3 else [value(rng, t["e"], False, depth + 1)]
    if k == "excl":
        return value(rng, t["e"], False, depth + 1)
    if k == "const":
        return t["d"]
    return [value(rng, u, big, depth + 1) for u in t["m"]]


# ------------------------------------------------------------------ class generation
class Universe:
    """A random set of classes; everything needed to exercise them."""
    def __init__(self, rng, nclasses=6, cpp11=True, excl=0.15, xml=False, cpp17=None):
        self.cpp17 = cpp11 if cpp17 is None else cpp17
        self.rng, self.cpp11, self.excl, self.xml = rng, cpp11, excl, xml
        self.enums, self.classes, self.text = [], [], []
        self.ns = rng.choice(("", "uv", "uv"))
        self.onbase = xml and rng.random() < 0.6     # bases distinguished from members
        self.body = []
        for i in range(2):
            self.add_enum(i)
        for i in range(nclasses):
            self.add_class(i)

    def q(self, n):
        return (self.ns + "::" if self.ns else "") + n

    def add_enum(self, i):
        rng = self.rng
        v, vals, items = 0, [], []
        for j in range(rng.randrange(1, 5)):
            s = "en%d_%s" % (i, "abcde"[j])
            if rng.random() < 0.5 and (j or not self.xml):
                v = rng.choice((-7, 3, 100, 1 << 20, -(1 << 30), v))
                items.append("%s=%d" % (s, v))
            else:
                items.append(s)
            vals.append((s, v))
            v += 1
        n = "En%d" % i
        self.enums.append(ENUM(self.q(n), vals))
        self.body.append("enum %s {%s};" % (n, ", ".join(items)))

    # ---- random types
    def scalar(self):
        if self.xml:
            return S(self.rng.choice(["bool", "char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "double", "float", "long long", "unsigned long long"]))
        return S(self.rng.choice(SCALARS)[0])

    def leaf(self):
        rng = self.rng
        x = rng.random()
        if x < 0.5:
            return self.scalar()
        if x < 0.75:
            return STR("wchar_t" if rng.random() < 0.2 and not self.xml else "char")
        if x < 0.85:
            return rng.choice(self.enums)
        cs = [c for c in self.classes if weight(c) < 60]
        return rng.choice(cs) if cs else self.scalar()

    def key(self):
        rng = self.rng
        return rng.choice((STR(), S("int"), S("unsigned long"), S("short"), S("unsigned char") if not self.xml else S("long")))

    def container(self, depth=0):
        rng = self.rng
        x = rng.random()
        e = self.container(depth + 1) if depth < 1 and rng.random() < 0.25 else self.leaf()
        if noncopyable(e) or (self.xml and e["k"] == "ptr"):
            e = self.scalar()
        if x < 0.45:
            return SEQ(rng.choice(("vector", "vector", "deque", "list")), e)
        if x < 0.6:
            return SET(rng.choice(("set", "multiset") + (("unordered_set", "unordered_multiset") if self.cpp11 else ())), self.key())
        if x < 0.8:
            c = rng.choice(("map", "multimap") + (("unordered_map", "unordered_multimap") if self.cpp11 else ()))
            return MAP(c, self.key(), e if c != "unordered_multimap" else self.scalar())
        if x < 0.88:
            return PAIR(e, self.scalar())
        if x < 0.96 or not self.cpp11:
            return PTR("shared", e if e["k"] in ("class", "scalar", "str") else self.scalar())
        return STDARR(self.scalar(), rng.choice((1, 2, 4)))

    def member_type(self):
        rng = self.rng
        x = rng.random()
        if x < 0.55:
            t = self.leaf()
        elif x < 0.85:
            t = self.container()
        else:
            t = self.leaf()
            if t["k"] == "class" and rng.random() < 0.5:
                t = self.scalar()
            for n in rng.choice(((3,), (2,), (2, 3), (2, 1, 2), (3, 2, 2))):
                t = ARR(t, n)
        if rng.random() < self.excl and t["k"] != "arr" and not noncopyable(t):
            t = EXCL(t)
        if self.cpp11 and rng.random() < 0.03 and not self.xml:
            t = PTR("unique", S("int"))
        if self.cpp17 and rng.random() < 0.05 and not self.xml:
            t = TUPLE(*[self.scalar() if rng.random() < 0.5 else STR() for _ in range(rng.choice((1, 2, 3)))])
        return t

    def add_class(self, i):
        rng = self.rng
        name = "Cl%d" % i
        bases = []
        cands = [c for c in self.classes if not noncopyable(c) and weight(c) < 60]
        if cands and rng.random() < 0.5:
            bases = rng.sample(cands, rng.choice((1, 1, 2)) if len(cands) > 1 else 1)
            if len(bases) == 2 and (derives(bases[0], bases[1]) or derives(bases[1], bases[0]) or shares(bases[0], bases[1])):
                bases = bases[:1]
        members = []
        for j in range(rng.choice((0, 1, 2, 3, 4, 5, 6) if i > 1 else (2, 3))):
            t = self.member_type() if self.xml or rng.random() < 0.94 else CONST(rng.choice(("int", "short", "char", "unsigned long")), rng.choice((0, 1, 77, -2)))
            if i == 1 and j == 0:       # one class always holds an array of characters
                t = ARR(S("char"), 3)
                t = rng.choice((t, ARR(t, 2)))
            if i == 1 and j == 1:       # and an array of three dimensions
                t = ARR(ARR(ARR(self.scalar(), 2), rng.choice((1, 2))), 2)
            members.append(("%s%d_%d" % (rng.choice(("m", "x_", "long_name", "Z")), i, j), t))
        lines = []
        kw = rng.choice(("struct", "class"))
        acc = "public" if kw == "struct" else "private"
        inits = []
        after, statics = [], []
        for n, t in members:
            want = rng.choice(("public", "private", "protected")) if not self.xml else "public"
            if want != acc:
                lines.append("%s:" % want)
                acc = want
            if rng.random() < 0.2:
                lines.append(rng.choice(("  int method_%s(int a, const std::string& b) const {return a;}", "  typedef int type_%s;", "  static const int konst_%s=4;",
                                         "  // comment ; int hidden_%s;", "  void proc_%s() {}")) % n)
            if rng.random() < 0.06:
                lines.append("  static int stat_%s;" % n)
                after.append("int %s::stat_%s=41;" % (name, n))
                if self.xml:
                    statics.append((n, ("stat_" + n, dict(CONST("int", 41), st=1))))
            d, u = "", t
            while u["k"] == "arr" and u.get("c") != "array":
                d += "[%d]" % u["n"]
                u = u["e"]
            lines.append("  %s %s%s;" % (u["cpp"], n, d))
            inits.append("%s(%s)" % (n, initial(t)))
        if acc != "public":
            lines.append("public:")
        lines.append("  friend struct ::Probe;")
        ctor = "  %s()%s {}" % (name, ": " + ", ".join(inits) if inits else "")
        lines.append(ctor)
        head = "%s %s%s" % (kw, name, ": " + ", ".join("public " + b["cpp"] for b in bases) if bases else "")
        # members are declared in order, innermost array dimension last
        self.body.append("%s\n{\n  CLASSDESC_ACCESS(%s);\n%s%s\n};" % (head, name, "public:\n" if kw == "class" and False else "", "\n".join(lines)))
        self.body += after
        for n, m in statics:
            members.insert([x for x, _ in members].index(n), m)
        c = CLASS(name, bases, members, self.q(name))
        if self.onbase:
            c["bn"] = ["base_" + "".join(ch if ch.isalnum() else "_" for ch in "::" + b["cpp"]) for b in bases]
        self.classes.append(c)

    # ---- output
    def header(self):
        b = "\n".join(self.body)
        if self.ns:
            b = "namespace %s {\n%s\n}" % (self.ns, b)
        return "struct Probe;\n" + b + "\n"

    def probes(self):
        """Accessors written without classdesc."""
        get, put = [], []
        for c in self.classes:
            g, s, i = [], [], 0
            for b in c["bases"]:
                g.append('s+=sep(%d)+V<%s >::get((const %s&)o);' % (i, b["cpp"], b["cpp"]))
                s.append("V<%s >::set((%s&)o,j[%d]);" % (b["cpp"], b["cpp"], i))
                i += 1
            for n, t in c["members"]:
                g.append("s+=sep(%d)+look(o.%s);" % (i, n))
                s.append("assign(o.%s,j[%d]);" % (n, i))
                i += 1
            get.append("static std::string get(const %s& o) {std::string s=\"[\"; %s return s+\"]\";}" % (c["cpp"], " ".join(g)))
            put.append("static void set(%s& o, const J& j) {%s}" % (c["cpp"], " ".join(s)))
        r = "struct Probe\n{\n%s\n%s\n};\n" % ("\n".join(get), "\n".join(put))
        for c in self.classes:
            n = c["cpp"]
            r += "template <> std::string V<%s >::get(const %s& x) {return Probe::get(x);}\n" % (n, n)
            r += "template <> void V<%s >::set(%s& x, const J& j) {Probe::set(x,j);}\n" % (n, n)
        decl = ""
        for c in self.classes:
            n = c["cpp"]
            decl += "template <> std::string V<%s >::get(const %s& x);\ntemplate <> void V<%s >::set(%s& x, const J& j);\n" % (n, n, n, n)
        return decl + r

    def roots(self, extra=()):
        """Types objects of which are serialised as a whole."""
        return list(self.classes) + list(extra)


def initial(t):
    if t["k"] == "const":
        return str(t["v"])
    if t["k"] != "excl":
        return ""
    e = t["e"]
    if e["k"] == "scalar":
        return "0"
    return ("std::string()" if e["cpp"] == "std::string" else "std::wstring()" if e["cpp"] == "std::wstring" else e["cpp"] + "()")


def noncopyable(t):
    if t["k"] == "const" or (t["k"] == "ptr" and t["c"] == "unique"):
        return True
    return any(noncopyable(u) for u in ([t[f] for f in ("e", "a", "b") if isinstance(t.get(f), dict)] + t.get("m", [])))


def derives(a, b):
    return a is b or any(derives(x, b) for x in a["bases"])


def shares(a, b):
    return any(shares(x, b) for x in a["bases"]) or derives(b, a)


def fixed_roots(cpp11):
    """Every type constructor, whatever the random classes contain."""
    i, s, d = S("int"), STR(), S("double")
    r = [i, S("bool"), d, S("wchar_t"), s, STR("wchar_t"), SEQ("vector", i), SEQ("deque", i), SEQ("list", s), SEQ("vector", S("bool")),
         SET("set", s), SET("multiset", i), MAP("map", s, d), MAP("multimap", i, s), PAIR(i, s), PTR("shared", i),
         SEQ("vector", SEQ("vector", s)), MAP("map", i, SEQ("list", i)), SEQ("vector", PAIR(S("char"), i)), SEQ("deque", SEQ("vector", d))]
    if cpp11:
        r += [SET("unordered_set", s), SET("unordered_multiset", i), MAP("unordered_map", s, i), STDARR(i, 3), STDARR(s, 2), PTR("unique", s), TUPLE(i, s, S("char")), TUPLE(s)]
    return r


def build_driver(ctx, name, u, roots, src, std, cdflags, actions, defs=(), opt="-O0", extra_srcs=(), incs=()):
    """Compile a conformance driver for a universe. Returns the executable."""
    import os, vlib
    d = os.path.join(ctx.work, name)
    os.makedirs(d)
    with open(os.path.join(d, "universe_types.h"), "w") as f:
        f.write(u.header())
    runs = cdflags if actions is None else [(cdflags, actions)]
    cds = []
    for i, (fl, ac) in enumerate(runs):
        n = "universe_types%s.cd" % (i or "")
        rc, o, e = vlib.gen_cd(ctx.cd, os.path.join(d, "universe_types.h"), ac, os.path.join(d, n), fl)
        if rc != 0:
            raise vlib.Violation("the processor rejects a valid header: " + e[-300:], {"header": u.header()})
        cds.append(n)
    with open(os.path.join(d, "universe.h"), "w") as f:
        f.write('#include "universe_types.h"\n' + "".join('#include "%s"\n' % c for c in cds))
    with open(os.path.join(d, "universe_probe.h"), "w") as f:
        f.write(u.probes())
    with open(os.path.join(d, "universe_roots.h"), "w") as f:
        f.write("Slot* make(int i)\n{\n  switch (i)\n    {\n")
        for i, t in enumerate(roots):
            f.write("    case %d: return new SlotT<%s >;\n" % (i, t["cpp"]))
        f.write("    }\n  throw std::logic_error(\"no such type\");\n}\n")
        f.write("const char* rootName(int i)\n{\n  switch (i)\n    {\n")
        for i, t in enumerate(roots):
            f.write("    case %d: return \"%s\";\n" % (i, t["cpp"]))
        f.write("    }\n  return \"\";\n}\n")
    exe = os.path.join(d, name)
    rc, msg = vlib.compile_cxx(ctx.cd, [os.path.join(vlib.HARN, src)] + [os.path.join(ctx.cd, x) for x in ("xdr_pack.cc",)] + list(extra_srcs), exe,
                               std=std, defs=defs, opt=opt, incs=(d, vlib.HARN) + tuple(incs))
    if rc != 0:
        raise vlib.CheckError("driver %s does not compile:\n%s" % (name, msg[:6000]))
    return exe

import os
import re
import vlib

PRE = '''#ifndef P_H
#define P_H
#include "pre.h"
'''
PREH = '''#include <string>
#include <vector>
#include <utility>
#include <stdint.h>
constexpr int gadd(int a, int b) {return a+b;}
template <int A, int B> struct Add {static const int value=A+B;};
typedef signed char Tiny;
namespace lib {typedef short Small; typedef unsigned long long Huge;}
using namespace std;
'''
RANGE = {"": (-2**31, 2**31 - 1), "int": (-2**31, 2**31 - 1), "short": (-2**15, 2**15 - 1), "long": (-2**31, 2**31 - 1), "signed char": (-128, 127),
         "char": (-128, 127), "Tiny": (-128, 127), "long long": (-2**31, 2**31 - 1), "lib::Small": (-2**15, 2**15 - 1), "unsigned char": (0, 255), "uint16_t": (0, 65535),
         "unsigned": (0, 2**31 - 1), "::lib::Huge": (0, 2**31 - 1), "int8_t": (-128, 127), "unsigned short int": (0, 65535)}


def spell(rng, v, names, plain=False):
    """C++ text of the value"""
    o = ["%d" % v] * 3
    if plain:
        return o[0]
    if v >= 0:
        o += ["0x%x" % v, "0X%X" % v, "0%o" % v, "%d>>0" % v, "%d|0" % v, "Add<%d,%d>::value" % (v // 2, v - v // 2), "(%d)" % v, "1?%d:7" % v,
              "gadd(%d, -1)+1" % v if v < 2**31 - 1 else "%d" % v, "/* , } = 3 */ %d // , x = 4 }\n" % v, "%d % 2147483647" .replace("%d", str(v)) if v < 2**31 - 1 else str(v),
              "int(sizeof(std::pair<char,char>)-2+%d)" % v, "(2>1, %d)" % v, "(%d<3? %d: %d)" % (v, v, v), "static_cast<int>(%d)" % v, "int{%d}" % v, "gadd(gadd(%d,0),0)" % v]
    else:
        o += ["-(%d)" % -v, "gadd(%d, 0)" % v, "- %d" % -v, "int(%d)" % v]
    if v > 0 and v & (v - 1) == 0:
        k = v.bit_length() - 1
        o += ["1<<%d" % k, "(1<<%d)" % k, "%d<<%d" % (v, 0)] * 3
    if 33 <= v <= 126:
        c = chr(v)
        o += ["'%s'" % ("\\" + c if c in "'\\" else c)] * 4
    return rng.choice(o)


def text_of(rng, hs, names, plain=False):
    out = []
    for n, h in zip(names, hs):
        if h["how"] == "next":
            t = n
        elif h["how"] == "lit":
            t = n + rng.choice(("=", " = ", "=\n")) + spell(rng, h["v"], names, plain)
        else:
            r = names[h["i"] - 1]
            t = n + "=" + ("%s%+d" % (r, h["v"]) if h["v"] else rng.choice((r, "(%s)" % r, r + "|" + r)))
        out.append(t)
    s = ""
    for i, t in enumerate(out):
        s += t + ("" if i == len(out) - 1 else rng.choice((",", ", ", " ,\n  ", ", /* c, d=3 } */ ")))
    return s + rng.choice(("", "", ",", " ", " // last }\n"))


def values(hs):
    r = []
    for h in hs:
        r.append((r[-1] + 1 if r else 0) if h["how"] == "next" else h["v"] if h["how"] == "lit" else r[h["i"] - 1] + h["v"])
    return r


class Enum:
    """one enumeration of a header"""
    def __init__(self, rng, idx, sort, names, hs, plain=False):
        self.idx, self.sort, self.hs = idx, sort, hs
        self.vals = values(hs)
        lo, hi = min(self.vals), max(self.vals)
        unders = [u for u, (a, b) in RANGE.items() if a <= lo and hi <= b]
        self.under = "" if rng.random() < .4 else rng.choice(unders)
        # enumerators of unscoped enums live in the scope around
        self.ctx = rng.choice(("global", "global", "ns", "nsns", "struct", "class", "nsclass", "nested", "member", "nsmember", "typedef", "unnamed", "nsunnamed", "clunnamed", "opaque", "first"))
        if self.ctx == "opaque" and sort == "plain" and not self.under:
            self.under = "int"
        if (sort == "plain" or self.ctx == "unnamed") and self.ctx in ("global", "typedef", "unnamed", "nsunnamed", "clunnamed", "opaque", "first") or rng.random() < .3:
            names = ["%s_%d" % (n, idx) for n in names]
        self.names = names
        body = text_of(rng, hs, names, plain)
        kw = "enum" if sort == "plain" else rng.choice(("enum class", "enum struct"))
        e = "E%d" % idx
        u = rng.choice((": ", " : ", ":" if self.under[:1] != ":" else " : ")) + self.under if self.under else ""
        df = "%s %s%s {%s}" % (kw, e, u, body)
        n, k = "N%d" % idx, "K%d" % idx
        c = self.ctx
        if c in ("global",):
            self.text, self.qual = df + ";\n", e
        elif c == "typedef":
            self.text, self.qual = "typedef %s T%d;\n" % (df, idx), e
        elif c in ("unnamed", "nsunnamed", "clunnamed"):
            df = df.replace(e, "", 1)
            if rng.random() < .3:
                e = rng.choice(("enum", "class", "struct", "typename", "Enum")) + str(idx)
            if sort == "scoped":          # has to have a name
                self.sort = "plain"
                df = df.replace(kw, "enum", 1)
            df = "typedef %s %s;\n" % (df, e)
            if c == "unnamed":
                self.text, self.qual = df, e
            elif c == "nsunnamed":
                self.text, self.qual = "namespace %s {int before%d(); %s}\n" % (n, idx, df), n + "::" + e
            else:
                self.text, self.qual = "struct %s {%s %s fe_;};\n" % (k, df, e), k + "::" + e
        elif c == "opaque":
            self.text, self.qual = "%s %s%s;\n%s;\n" % (kw, e, u, df), e
        elif c == "first":
            self.text, self.qual = "/* enum X%d {x}; */ // enum class\n%s ;\ntypedef %s Again%d;\n" % (idx, df, e, idx), e
        elif c == "ns":
            self.text, self.qual = "namespace %s {\n%s;\n}\n" % (n, df), n + "::" + e
        elif c == "nsns":
            self.text, self.qual = "namespace %s { namespace M {\n%s;\n} int after%d();\n}\n" % (n, df, idx), n + "::M::" + e
        elif c == "struct":
            self.text, self.qual = "struct %s {int fa_; %s; %s fe_; int fb_;};\n" % (k, df, e), k + "::" + e
        elif c == "class":
            self.text, self.qual = "class %s {int fa_; public: %s; void ff_() {int x; (void)x;} private: int fb_; public: %s fe_; };\n" % (k, df, e), k + "::" + e
        elif c == "nsclass":
            self.text, self.qual = "namespace %s {struct %s {%s; %s fe_[2];};}\n" % (n, k, df, e), n + "::" + k + "::" + e
        elif c == "nested":
            self.text, self.qual = "struct %s {struct In {%s; int fq_;} fin_; %s fx_;};\n" % (k, df, "In::" + e), k + "::In::" + e
        elif c == "member":
            self.text, self.qual = "struct %s {%s fm_; int fafter_;};\n" % (k, df), k + "::" + e
        elif c == "nsmember":
            self.text, self.qual = "namespace %s {class %s {public: %s fm_, *fp_, fa_[3]; int fafter_;};}\n" % (n, k, df), n + "::" + k + "::" + e
        # the values a variable of the type may hold
        if self.under or self.sort == "scoped":
            self.range = RANGE[self.under or "int"]
        else:
            m = max(hi, -lo - 1 if lo < 0 else 0)
            b = max(m.bit_length(), 1)
            self.range = (-2**b if lo < 0 else 0, 2**b - 1)
        self.holder = "struct H%d {short before; %s e; signed char after; std::vector<%s > v;};\n" % (idx, self.qual, self.qual)

    def probe_values(self, rng, k):
        lo, hi = self.range
        vs = set(self.vals)
        for v in list(vs) + [0, 1, lo, hi]:
            for d in (-1, 0, 1):
                vs.add(v + d)
        for _ in range(2):
            vs.add(rng.randint(lo, hi))
        vs = [v for v in vs if lo <= v <= hi]
        return sorted(set(self.vals) | set(rng.sample(vs, min(k, len(vs)))))

    def events(self, rng, symbolic):
        yield {"op": "begin", "sort": self.sort}
        for n, h in zip(self.names, self.hs):
            yield {"op": "enumerator", "n": n, "h": h}
        yield {"op": "end"}
        vs = self.probe_values(rng, 6)
        q = []
        for v in vs:
            for how in ("bin", "binm") + (("xml", "xmlm", "xmlc", "stream") if symbolic else ()):
                q.append({"op": "round", "how": how, "old": rng.choice(vs), "v": v})
        if symbolic:
            odd = ["z", "A", self.names[0] + "x", self.names[-1][:-1] + "?", "E%d" % self.idx, self.qual + "::" + self.names[0], self.names[0].upper()]
            for n in self.names + [x for x in odd if x not in self.names]:
                q += [{"op": "val", "n": n}, {"op": "hasn", "n": n}, {"op": "setn", "n": n}]
            for v in vs:
                q += [{"op": "name", "v": v}, {"op": "hasv", "v": v}, {"op": "setv", "v": v}, {"op": "seti", "v": v}, {"op": "setd", "v": v}]
            q += [{"op": "table"}, {"op": "table"}]
            rng.shuffle(q)
            w = []
            for e in q:
                w.append(e)
                if e["op"].startswith("set"):
                    w.append({"op": "read"})
            q = w
        for e in q:
            yield e


def line(e):
    if e["op"] in ("begin", "enumerator", "end"):
        return "none"
    a = [str(e["i"]), e["op"]]
    for k in ("how", "old", "n", "v"):
        if k in e:
            a.append(str(e[k]))
    return " ".join(a)


def merge(e, o):
    return {k: v for k, v in o.items()} if e["op"] not in ("begin", "enumerator", "end") else {}


def build(ctx, enums, name, symbolic):
    d = os.path.join(ctx.work, name)
    os.makedirs(d)
    with open(os.path.join(d, "pre.h"), "w") as f:
        f.write(PREH)
    hdr = PRE + "".join(e.text + e.holder for e in enums) + "#endif\n"
    with open(os.path.join(d, "p.h"), "w") as f:
        f.write(hdr)
    flags = ["-nodef", "-onbase"] + (["-typeName"] if symbolic else [])
    acts = ["pack", "unpack"] + (["xml_pack", "xml_unpack"] if symbolic else [])
    rc, o, err = vlib.gen_cd(ctx.cd, os.path.join(d, "p.h"), acts, os.path.join(d, "p.cd"), flags)
    info = {"header": hdr, "flags": flags}
    if rc != 0:
        ctx.violation("classdesc %s fails (%s): %s" % (" ".join(flags), rc, err[-300:]), info)
        return None, info
    with open(os.path.join(d, "main.cc"), "w") as f:
        f.write('#include "pack_base.h"\n#include "pack_stl.h"\n' + ('#include "xml_pack_base.h"\n#include "xml_unpack_base.h"\n#define SYMBOLIC\n' if symbolic else "")
                + '#include "p.h"\n#include "p.cd"\n#include "classdesc_epilogue.h"\n#include "enumobj.h"\nSlot* make(int i) {switch (i) {\n'
                + "".join("case %d: return new Of< ::%s,H%d>;\n" % (e.idx, e.qual, e.idx) for e in enums) + "} return 0;}\n")
    exe = os.path.join(d, "drv")
    args = dict(std="c++17", incs=[vlib.HARN, d], opt="-O0", extra=["-w"])
    rc, msg = vlib.compile_cxx(ctx.cd, [os.path.join(d, "main.cc"), os.path.join(ctx.cd, "xdr_pack.o")], exe, **args)
    if rc != 0:
        # is the header itself in order?
        with open(os.path.join(d, "alone.cc"), "w") as f:
            f.write('#include "p.h"\n')
        rc2, msg2 = vlib.compile_cxx(ctx.cd, [os.path.join(d, "alone.cc")], os.path.join(d, "alone.o"), extra=["-c"], **{k: v for k, v in args.items() if k != "extra"})
        if rc2 != 0:
            raise vlib.CheckError("the header of the check does not compile:\n" + msg2[:3000])
        errs = [l for l in msg.split("\n") if "error" in l or "undefined" in l]
        ctx.violation("the descriptors of the enums do not compile: " + " | ".join(errs[:3])[:600], info)
        return None, info
    return exe, info


def batches(ctx, enums, name, label, per=40):
    rng = ctx.rng
    jobs = [(enums[i:i + per], "%s%d" % (name, i // per), rng.random() < .75, rng.randrange(1 << 30)) for i in range(0, len(enums), per)]
    ctx.cd

    def one(j):
        es, nm, symbolic, seed = j
        import random
        r = random.Random(seed)
        if len(ctx.violations) > 3:
            return
        exe, info = build(ctx, es, nm, symbolic)
        if exe:
            traces = []
            for e in es:
                t = []
                for v in e.events(r, symbolic):
                    if v["op"] not in ("begin", "enumerator", "end"):
                        v["i"] = e.idx
                    t.append(v)
                traces.append(t)
            vlib.record_and_validate(ctx, exe, traces, line, label, "EnumTrace", "EnumTrace.cfg", merge=merge, ctx_info=info, groups=1)
        vlib.sh(["rm", "-rf", os.path.join(ctx.work, nm)])
    vlib.parallel(one, jobs)
    ctx.enough()


def run(ctx):
    ctx.level = "model_checking"
    rng = ctx.rng
    vlib.model_check(ctx, "EnumMC", "EnumDeep.cfg", workers=8)
    r = vlib.model_check(ctx, "EnumMC", "EnumMC.cfg" if ctx.quick else "EnumMC4.cfg", workers=8)
    decls = {}
    for a, e, b in vlib.emitted(r):
        decls.setdefault(vlib.canon(a), []).append((e, vlib.canon(b)))
    # every finished declaration: all paths (declarations are trees but for coinciding values)
    found, todo = [], [(vlib.canon([[], "plain", False, 0]), "", [])]
    while todo:
        s, sort, hs = todo.pop()
        for e, t in decls.get(s, []):
            if e["op"] == "begin":
                todo.append((t, e["sort"], []))
            elif e["op"] == "enumerator":
                todo.append((t, sort, hs + [e["h"]]))
            elif e["op"] == "end":
                found.append((sort, hs))
    rng.shuffle(found)
    ctx.log("%d declarations" % len(found))
    small = found[:960] if ctx.quick else found[:12000]
    ctx.cov["declarations enumerated"] = len(found)
    ctx.cov["declarations run"] = len(small)
    batches(ctx, [Enum(rng, i, s, ["a", "b", "c", "d"][:len(hs)], hs) for i, (s, hs) in enumerate(small)], "m", "enumerated declarations")
    big = []
    for i in range(240 if ctx.quick else 3000):
        n = rng.choice((1, 2, 5, 8, 13, 40))
        lo, hi = rng.choice(((0, 10), (0, 255), (-128, 127), (-5, 5), (-2**31, 2**31 - 100), (0, 65535), (33, 126)))
        hs = []
        while len(hs) < n:
            x = rng.random()
            h = {"how": "next"} if x < .4 else {"how": "lit", "v": rng.randint(lo, hi)} if x < .85 or not hs else {"how": "ref", "i": rng.randint(1, len(hs)), "v": rng.choice((0, 0, 1, -1, 2))}
            vs = values(hs + [h])
            if lo <= vs[-1] <= hi:
                hs.append(h)
        names = rng.sample(["alpha", "Beta", "_g", "x1", "very_long_name_for_an_enumerator", "enumx", "class_", "E", "F", "e", "before", "a_", "b_", "int_", "NULL_", "T", "default_", "red", "green", "blue"] + ["n%d" % j for j in range(40)], n)
        big.append(Enum(rng, 100000 + i, rng.choice(("plain", "scoped")), names, hs))
    batches(ctx, big, "r", "random declarations", per=20)
    ctx.assumptions += ["enumerators whose values fit an int (the table's value type); public enums outside of templates",
                        "plain enums hold values within the range of their enumerators"]

import json
import os
import random
import re
import vlib

FUND = ["bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "float", "double", "long double",
        "std::string", "std::wstring", "wchar_t", "long long", "unsigned long long"]
FUND11 = ["char16_t", "char32_t"]
SEQ = ["std::vector", "std::list", "std::deque", "std::set", "std::multiset", "classdesc::shared_ptr"]
SEQ11 = ["std::unique_ptr", "std::weak_ptr", "std::unordered_set", "std::unordered_multiset", "std::array"]
SEQ98 = ["std::auto_ptr"]
TWO = ["std::map", "std::multimap", "std::pair"]
TWO11 = ["std::unordered_map", "std::unordered_multimap"]
PRE = '''#include <string>
#include <vector>
#include <list>
#include <deque>
#include <set>
#include <map>
#include <memory>
#if __cplusplus>=201103L
#include <unordered_map>
#include <unordered_set>
#include <array>
#include <type_traits>
#endif
template <class T> struct P_ {typedef T* type;};
template <class T> struct C_ {typedef const T type;};
template <class T> struct R_ {typedef T& type;};
#if __cplusplus>=201103L
template <class T> struct RR_ {typedef T&& type;};
#endif
template <class T, int n> struct A1_ {typedef T type[n];};
template <class T, int n, int m> struct A2_ {typedef T type[n][m];};
template <class T, int n, int m, int k> struct A3_ {typedef T type[n][m][k];};
'''


def fund(n):
    return {"c": "fund", "n": n}


VOID = fund("void")


def cpp(t):
    """the type, as C++ without reliance on how declarators are written"""
    c = t["c"]
    if c == "fund":
        return t["n"]
    if c == "val":
        return t.get("src", t["s"])
    if c == "user":
        return "::" + "::".join(t["q"])
    if c == "tmpl":
        return "::" + "::".join(t["q"]) + "< " + ", ".join(cpp(a) for a in t["args"]) + " >"
    if c == "std":
        return t["n"] + "< " + ", ".join(cpp(a) for a in t["args"]) + " >"
    if c == "arr":
        return "A%d_< %s,%s>::type" % (len(t["dims"]), cpp(t["t"]), ",".join(map(str, t["dims"])))
    return {"ptr": "P_", "const": "C_", "ref": "R_", "rref": "RR_"}[c] + "< " + cpp(t["t"]) + " >::type"


def depth(t):
    return 1 + max([depth(x) for x in t.get("args", []) + ([t["t"]] if "t" in t else [])] or [0])


def spelled(t):
    """is the name, put together from those of its parts, also how C++ writes the type?"""
    if t["c"] in ("ptr", "ref", "rref") and t["t"]["c"] == "arr":
        return False
    return all(spelled(x) for x in t.get("args", []) + ([t["t"]] if "t" in t else []))


def plain(t):
    """as the specification has it"""
    r = {k: v for k, v in t.items() if k != "src"}
    if "t" in r:
        r["t"] = plain(r["t"])
    if "args" in r:
        r["args"] = [plain(x) for x in r["args"]]
    return r


def run_types(ctx, name, header, types, std, label):
    """prints the name of each of the types, which TLC compares with those of the specification"""
    if len(ctx.violations) > 3:
        return
    d = os.path.join(ctx.work, name)
    os.makedirs(d)
    with open(os.path.join(d, "p.h"), "w") as f:
        f.write("#ifndef P_H\n#define P_H\n#include \"pre.h\"\n" + header + "#endif\n")
    with open(os.path.join(d, "pre.h"), "w") as f:
        f.write("#ifndef PRE_H\n#define PRE_H\n" + PRE + "#endif\n")
    info = {"header": header, "std": std, "types": [cpp(t) for t in types]}
    flags = ["-nodef", "-onbase", "-typeName"]
    rc, o, err = vlib.gen_cd(ctx.cd, os.path.join(d, "p.h"), ["dump"], os.path.join(d, "p.cd"), flags)
    if rc != 0:
        ctx.violation("%s: classdesc %s fails (%s): %s" % (label, " ".join(flags), rc, err[-300:]), info)
        return
    inc = '#include "dump_base.h"\n#include "p.h"\n#include "p.cd"\n#include "classdesc_epilogue.h"\n#include <stdio.h>\nusing classdesc::typeName;\n'
    with open(os.path.join(d, "main.cc"), "w") as f:
        f.write(inc)
        for i, t in enumerate(types):
            f.write("typedef %s Y%d;\n" % (cpp(t), i))
        f.write("int main() {\n" + "".join('puts(typeName<Y%d >().c_str());\n' % i for i in range(len(types))) + "}\n")
    exe = os.path.join(d, "run")
    args = dict(std="c++%02d" % std, san=None, incs=[d], opt="-O0", extra=["-w"])
    rc, msg = vlib.compile_cxx(ctx.cd, [os.path.join(d, "main.cc")], exe, **args)
    errs = [l for l in msg.split("\n") if "error" in l or "undefined" in l]
    if rc != 0:
        with open(os.path.join(d, "alone.cc"), "w") as f:
            f.write('#include "classdesc.h"\n' + open(os.path.join(d, "main.cc")).read().split("int main")[0].replace('#include "p.cd"\n', "").replace('#include "dump_base.h"\n', "").replace('#include "classdesc_epilogue.h"\n', ""))
        args["extra"] = ["-c", "-w"]
        rc2, msg2 = vlib.compile_cxx(ctx.cd, [os.path.join(d, "alone.cc")], os.path.join(d, "alone.o"), **args)
        if rc2 != 0:
            raise vlib.CheckError("the types of the check do not compile:\n" + msg2[:3000])
        ctx.violation("%s: names do not compile: %s" % (label, " | ".join(errs[:3])[:700]), info)
        return
    rc, out, err = vlib.run_harness(exe, "", timeout=60)
    names = out.split("\n")[:-1]
    if rc != 0 or len(names) != len(types):
        ctx.violation("%s: %s" % (label, vlib.crash_text(rc, err)), info)
        return
    rec = [{"op": "restart"}] + [{"op": "type", "t": plain(t), "obs": tight(n)} for t, n in zip(types, names)]
    at = vlib.validate_trace(ctx, "TypeNameTrace", "TypeNameTrace.cfg", rec)
    if at is not None:
        ctx.violation("%s: %s is named %s" % (label, cpp(types[at - 1]), names[at - 1]), info)
        return
    if std == 17:
        # and the name means the type
        ok = [i for i, t in enumerate(types) if spelled(t)]
        with open(os.path.join(d, "same.cc"), "w") as f:
            f.write('#include "dump_base.h"\n#include "p.h"\n')
            for i in ok:
                f.write("static_assert(std::is_same<%s,\n%s>::value, \"%d\");\n" % (cpp(types[i]), names[i], i))
        args["extra"] = ["-c", "-w"]
        rc, msg = vlib.compile_cxx(ctx.cd, [os.path.join(d, "same.cc")], os.path.join(d, "same.o"), **args)
        if rc != 0:
            errs = [l for l in msg.split("\n") if "error" in l]
            m = re.search(r"same.cc:(\d+)", errs[0]) if errs else None
            i = ok[min((int(m.group(1)) - 3) // 2, len(ok) - 1)] if m else 0
            ctx.violation("%s: %s is named %s, which is not that type (%s)" % (label, cpp(types[i]), names[i], errs[0][:300] if errs else ""), info)
    ctx.traces += 1
    ctx.events += len(types)
    ctx.sample({"kind": label, "names": dict(list(zip(info["types"], names))[:6])})
    vlib.sh(["rm", "-rf", d])


def tight(n):
    """the name without the blanks that separate nothing"""
    n = re.sub(r"\s*([^\w\s])\s*", r"\1", " ".join(n.split()))
    return re.sub(r"\*const\b", "* const", re.sub(r"\bconst::", "const ::", n))


FIXED = '''struct K0 {int a;};
template <class T> struct T0 {int a;};
namespace N0 {
  class K0 {public: int b;};
  struct K1 {struct In {int c;} in;};
  template <class T, int n> struct T1 {int a;};
}
'''


def batches(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


NAMES = ["A", "B", "Klass", "x", "T", "U", "N", "K", "classy", "structure", "enumeration", "typenames", "std_", "vector", "string_", "int_", "_u", "a1", "constant", "Template", "names", "Inner", "public_", "E"]


class Universe:
    """a header of classes, enums and templates in namespaces and classes"""
    def __init__(self, rng, idx, std):
        self.rng, self.cxx11, self.users, self.tmpls, self.n, self.text = rng, std != 98, [], [], 0, ""
        self.used = set()
        self.text = "enum G {g0, g1, g2=-4};\n"
        self.users.append({"c": "user", "q": ["G"]})
        self.scope([], 0)
        if not self.tmpls:
            self.text += self.template([], self.fresh())

    def fresh(self):
        self.n += 1
        return self.rng.choice(NAMES) + (str(self.n) if True else "")

    def scope(self, path, d):
        rng = self.rng
        for _ in range(rng.randrange(2, 6)):
            x, n = rng.random(), self.fresh()
            if x < .25 and d < 3:
                self.text += "namespace %s {\n" % n
                self.scope(path + [n], d + 1)
                self.text += "}\n"
            elif x < .6:
                self.text += self.klass(path, n, 0) + ";\n"
            elif x < .7:
                s = rng.choice(("", "class ")) if self.cxx11 else ""
                self.text += "enum %s%s {e%d, f%d};\n" % (s, n, self.n, self.n)
                self.users.append({"c": "user", "q": path + [n]})
            elif x < .8:
                self.text += "typedef struct {int a;} %s;\n" % n
                u = {"c": "user", "q": path + [n]}
                if not path:
                    u["bare"] = True
                self.users.append(u)
            else:
                self.text += self.template(path, n)

    def klass(self, path, n, d):
        rng = self.rng
        kw = rng.choice(("class", "struct"))
        r = "%s %s {%s int m_%d;" % (kw, n, "public:" if kw == "class" else "", self.n)
        for _ in range(rng.choice((0, 0, 1, 2)) if d < 3 else 0):
            x, i = rng.random(), self.fresh()
            if x < .5:
                r += self.klass(path + [n], i, d + 1) + (" v%d;" % self.n if rng.random() < .5 else ";")
            elif x < .75:
                r += "enum %s {q%d};" % (i, self.n)
                self.users.append({"c": "user", "q": path + [n, i]})
            else:
                r += self.template(path + [n], i, member=True)
        self.users.append({"c": "user", "q": path + [n]})
        return r + "}"

    PARAMS = [["class T"], ["typename T", "class U"], ["class T", "int N"], ["int N", "bool B"], ["char c"], ["class T", "class U=int"], ["G e"], ["unsigned long n=3"], ["class T", "T v"], ["class T=std::vector<int> ", "unsigned char u='c'"], ["short s", "class T"]]
    PARAMS11 = [["class... R"], ["class T", "class... R"], ["int... I"], ["bool b", "char... cs"], ["class T", "class U", "typename... Rest"]]

    def template(self, path, n, member=False):
        rng = self.rng
        ps = rng.choice(self.PARAMS + (self.PARAMS11 if self.cxx11 else []))
        r = "template <%s> struct %s {int a;};\n" % (", ".join(ps), n)
        self.tmpls.append((path + [n], ps))
        if not member:
            if ps == ["class T"]:
                for s in rng.sample(("<class T> struct %s<T*>", "<class T> struct %s<std::vector<T> >", "<> struct %s<int>", "<class A, class B> struct %s<std::pair<A,B> >", "<class T, int n> struct %s<T[n]>"), 2):
                    r += "template " + s % n + " {int b;};\n"
            elif ps == ["class T", "int N"]:
                r += rng.choice(("template <class T> struct %s<T,0> {int b;};\n", "template <int M> struct %s<char,M> {int b;};\n", "template <class T> struct %s<T*,-1> {int b;};\n", "template <class T, int M> struct %s<T*,M> {int b;};\n")) % n
            elif ps == ["int N", "bool B"]:
                r += "template <int M> struct %s<M,true> {int b;};\n" % n
            elif ps == ["class... R"]:
                r += "template <class X, class... R> struct %s<X,R...> {int b;};\n" % n
        return r

    def val(self, kind):
        rng = self.rng
        if kind == "int":
            v = rng.choice((0, 1, -1, 3, -17, 2**31 - 1, 42))
        elif kind == "short":
            v = rng.choice((0, -1, 3000))
        elif kind == "unsigned long":
            v = rng.choice((0, 3, 2**40))
        elif kind == "bool":
            v = rng.random() < .5
            return {"c": "val", "s": "true" if v else "false"}
        elif kind in ("char", "unsigned char"):
            v = rng.choice("ax'0\\")
            return {"c": "val", "s": str(ord(v)), "src": "'%s'" % ("\\" + v if v in "'\\" else v)}
        elif kind == "G":
            n, v = rng.choice((("g0", 0), ("g1", 1), ("g2", -4)))
            return {"c": "val", "s": "(::G)%d" % v, "src": "::" + n}
        return {"c": "val", "s": str(v), "src": str(v)}

    def instance(self, d):
        rng = self.rng
        q, ps = rng.choice(self.tmpls)
        args = []
        for p in ps:
            m = re.match(r"(class|typename|[\w: ]+?)(\.\.\.)? (\w+)(=.*)?$", p)
            k = 1 if not m.group(2) else rng.choice((0, 1, 2, 3))
            for _ in range(k):
                if m.group(1) in ("class", "typename"):
                    args.append(fund("short") if "T v" in ps else self.type(d - 1))
                else:
                    args.append(self.val({"T": "short"}.get(m.group(1), m.group(1))))
        if not args:
            return None
        return {"c": "tmpl", "q": q, "args": args}

    def type(self, d, value=False):
        rng = self.rng
        while True:
            t = self.any(d)
            if t and not (value and (t["c"] in ("ref", "rref", "const", "arr") or t == VOID)):
                return t

    def any(self, d):
        rng = self.rng
        x = rng.random()
        if d <= 0:
            return rng.choice(self.users) if x < .5 else fund(rng.choice(FUND + (FUND11 if self.cxx11 else [])))
        if x < .3:
            return self.instance(d)
        if x < .5:
            seqs = SEQ + (SEQ11 if self.cxx11 else SEQ98)
            n = rng.choice(seqs)
            a = self.type(d - 1, True)
            return {"c": "std", "n": n, "args": [a] + ([{"c": "val", "s": str(rng.randrange(1, 99))}] if n == "std::array" else [])}
        if x < .65:
            n = rng.choice(TWO + (TWO11 if self.cxx11 else []))
            return {"c": "std", "n": n, "args": [self.type(d - 1, True), self.type(d - 1, True)]}
        t = self.type(d - 1) if rng.random() < .95 else VOID
        k = rng.choice(("ptr", "ptr", "const", "const", "ref", "arr") + (("rref",) if self.cxx11 else ()))
        cvoid = t == VOID or t == {"c": "const", "t": VOID}
        if t["c"] in ("ref", "rref") or (cvoid and k not in ("ptr", "const")) or (k == "const" and t["c"] in ("const", "arr")) or (k == "arr" and t["c"] == "arr"):
            return None
        r = {"c": k, "t": t}
        if k == "arr":
            r["dims"] = [rng.randrange(1, 20) for _ in range(rng.choice((1, 1, 2, 3)))]
        return r


def run(ctx):
    ctx.level = "model_checking"
    rng = ctx.rng
    r = vlib.model_check(ctx, "TypeNameMC", "TypeNameMC2.cfg" if ctx.quick else "TypeNameMC3.cfg")
    types = [e["t"] for e in vlib.emitted(r)]
    types = [t for t in types if t != VOID]
    small = [t for t in types if depth(t) <= 3]
    deep = [t for t in types if depth(t) > 3]
    rng.shuffle(small)
    rng.shuffle(deep)
    use = small + (deep[:1200] if ctx.quick else deep)
    ctx.log("%d types" % len(use))
    ctx.cov["types of the model"] = len(types)
    ctx.cov["types of the model run"] = len(use)
    ctx.cd
    jobs = [("m%d" % i, FIXED, b, 17, "types of the model") for i, b in enumerate(batches(use, 120))]
    for i in range(40 if ctx.quick else 600):
        std = rng.choice((17, 17, 11, 98))
        u = Universe(random.Random(rng.randrange(1 << 40)), i, std)
        ts = list(u.users) + [u.type(rng.choice((1, 1, 2, 3, 4))) for _ in range(60)]
        ts += [x for x in (u.instance(rng.choice((0, 1, 2))) for _ in range(40)) if x]
        jobs.append(("r%d" % i, u.text, ts, std, "random types"))
    vlib.parallel(lambda j: run_types(ctx, *j), jobs)
    ctx.enough()
    ctx.assumptions += ["types involving functions, allocators, comparators and hash functions left out; full specialisations over fundamental types only"]

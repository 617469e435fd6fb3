"""Programs of functions and methods for C24: what they are, and the C++ that calls them every way there is."""
BASES = ("int", "short", "long", "char", "bool", "double", "float", "string", "vec", "P", "E")
KINDS = ("free", "static", "obj", "b1", "b2", "virt")
CLS = {"static": "Obj", "obj": "Obj", "b1": "B1", "b2": "B2", "virt": "B1"}


def base(t):
    return t.replace("const ", "").rstrip("&")


def make(rng, n, maxarity, numeric=False):
    fns = []
    for i in range(1, n + 1):
        kind = rng.choices(KINDS, (5, 1, 5, 2, 2, 2))[0]
        arity = rng.choices((0, 1, 2, 3, rng.randrange(4, maxarity + 1)), (1, 2, 3, 2, 3))[0]
        bs = BASES if not numeric else BASES[:7]
        args = [rng.choice(("%s", "%s", "const %s&")) % rng.choice(bs) for _ in range(arity)]
        b = rng.choice(BASES)
        ret = rng.choices(("void", b, "const %s&" % b, "%s&" % b), (3, 5, 1, 1))[0]
        fns.append(dict(args=args, ret=ret, kind=kind, const=kind not in ("free", "static") and rng.random() < .4, noexcept=rng.random() < .2))
    # each argument count has to occur as function, method and const method
    return fns


def every(maxarity, rng):
    """each kind of function with each number of arguments"""
    fns = []
    for arity in range(maxarity + 1):
        for kind, const in (("free", False), ("obj", False), ("obj", True)):
            for void in (0, 1):
                args = [rng.choice(("%s", "const %s&")) % rng.choice(BASES) for _ in range(arity)]
                fns.append(dict(args=args, ret="void" if void else rng.choice(BASES), kind=kind, const=const, noexcept=False))
    return fns


def source(fns, nobj):
    o = ['#include "uni.cd"', '#include "callrt.h"', "using namespace classdesc;", "using namespace classdesc::functional;",
         "#if __cplusplus >= 201703L", "#define NOEX noexcept", "#else", "#define NOEX", "#endif",
         "vector<Call> calls;"]
    sig = lambda f: ", ".join("%s x%d" % (t, k + 1) for k, t in enumerate(f["args"]))
    decl = {"B1": [], "B2": [], "Obj": []}
    bodies = []

    def body(i, f, me, fake=False):
        n = len(f["args"])
        s = "{ int a[] = {%s}; int o = %s; called(%d, o, a, %d);" % (
            ", ".join(["Cv<%s>::un(x%d)" % (base(t), k + 1) for k, t in enumerate(f["args"])] + ["0"]), me, -i if fake else i, n)
        if f["kind"] in ("free", "static"):
            s += " int w = 0;"
        elif f["const"]:
            s += " int w = sums[o];"
        else:
            s += " int w = sums[o] = (sums[o] + %d + weigh(a, %d)) %% 1000;" % (i, n)
        if f["ret"] == "void":
            return s + " (void)w; }"
        s += " int r = (7 * %d + w + weigh(a, %d)) %% 100;" % (i, n)
        if f["ret"].endswith("&"):
            return s + " return kept%d[o] = Cv<%s>::mk(r); }" % (i, base(f["ret"]))
        return s + " return Cv<%s>::mk(r); }" % f["ret"]

    for i, f in enumerate(fns, 1):
        q = (" const" if f["const"] else "") + (" NOEX" if f["noexcept"] else "")
        if f["kind"] == "free":
            bodies.append("%s f%d(%s)%s %s" % (f["ret"], i, sig(f), q, body(i, f, "0")))
            continue
        c = CLS[f["kind"]]
        decl[c].append("%s%s m%d(%s)%s;" % ("static " if f["kind"] == "static" else "virtual " if f["kind"] == "virt" else "", f["ret"], i, sig(f), q))
        me = {"Obj": "int(this - objs)", "B1": "int(me - objs)", "B2": "int(me2 - objs)"}[c] if f["kind"] != "static" else "0"
        bodies.append("%s %s::m%d(%s)%s %s" % (f["ret"], c, i, sig(f), q, body(i, f, me, f["kind"] == "virt")))
        if f["kind"] == "virt":
            decl["Obj"].append("%s m%d(%s)%s;" % (f["ret"], i, sig(f), q))
            bodies.append("%s Obj::m%d(%s)%s %s" % (f["ret"], i, sig(f), q, body(i, f, "int(this - objs)")))
    o += ["struct B1 { Obj* me; int pad1[3]; B1(): me(0) {} virtual ~B1() {} %s };" % " ".join(decl["B1"]),
          "struct B2 { Obj* me2; long pad2[2]; B2(): me2(0) {} virtual ~B2() {} %s };" % " ".join(decl["B2"]),
          "struct Obj: public B1, public B2 { int pad3; %s };" % " ".join(decl["Obj"]),
          "const int nobj = %d; Obj store[nobj]; Obj* objs = store; int sums[nobj];" % nobj]
    for i, f in enumerate(fns, 1):
        if f["ret"].endswith("&"):
            o.append("%s kept%d[nobj];" % (base(f["ret"]).replace("bool", "bool"), i))
    o += bodies
    o.append("typedef PackFunctor<BUF> Buf; Buf* buf;")
    for i, f in enumerate(fns, 1):
        n = len(f["args"])
        q = (" const" if f["const"] else "") + (" NOEX" if f["noexcept"] else "")
        free = f["kind"] in ("free", "static")
        types = ", ".join(f["args"])
        void = f["ret"] == "void"
        ref = f["ret"].endswith("&")
        name = "f%d" % i if f["kind"] == "free" else "%s::m%d" % (CLS[f["kind"]], i)
        at = "%s" % ("&kept%d[ob]" % i if ref else "0")
        o.append("typedef %s (%s*F%d)(%s)%s;" % (f["ret"], "" if free else CLS[f["kind"]] + "::", i, types, q))
        if not free:
            o.append("typedef bound_method<Obj,F%d> B_%d; typedef bound_method<const Obj,F%d> C_%d; B_%d* b%d; C_%d* c%d; int bo%d, co%d;" % ((i,) * 10))
        o.append("string do%d(const string& op, const string& how, int k, const vector<int>& a) {" % i)
        o.append("  int ob = 0; (void)ob; (void)k; std::ostringstream out;")
        got = lambda e: "{ %s; return \"[]\"; }" % e if void else "return Got<%s>::s(%s, %s);" % (f["ret"], e, at)
        if not free:
            o.append("  if (op == \"bind\") { if (how == \"const\") { delete c%d; c%d = new C_%d(bindMethod((const Obj&)objs[k], &%s)); co%d = k; } else { delete b%d; b%d = new B_%d(bindMethod(objs[k], &%s)); bo%d = k; } return \"\"; }" % (i, i, i, name, i, i, i, i, name, i))
            o.append("  if (op == \"copy\") { if (how == \"const\") { C_%d* t = new C_%d(*c%d); delete c%d; c%d = t; } else { B_%d* t = new B_%d(*b%d); delete b%d; b%d = t; } return \"\"; }" % ((i,) * 10))
            reb = "  if (op == \"rebind\") { if (how == \"const\") { c%d->rebind(objs[k]); co%d = k; } else { b%d->rebind(objs[k]); bo%d = k; } return \"\"; }" % (i, i, i, i)
            o += ["#ifndef UNROLLED", reb, "#endif"] if True else [reb]
            o.append("  ob = how == \"const\" ? co%d : bo%d;" % (i, i))

        def ways(fn):
            """fn: the function object"""
            vals = ", ".join("Cv<%s>::mk(a[%d])" % (base(t), k) for k, t in enumerate(f["args"]))
            r = []
            r.append("if (op == \"call\") %s" % got("%s(%s)" % (fn, vals)))
            hard = any(base(t) in ("string", "vec", "P") for t in f["args"])  # TR1 does not know that these can be copied
            if hard:
                r.append("\n#if __cplusplus >= 201103L\n")
            r.append("if (op == \"apply\") { vector<Val> v(a.begin(), a.end()); v.resize(a.size() + 2); Val* p = &v[0]; (void)p;")
            if void:
                r.append("  apply(NULL, %s, p); return \"[]\"; }" % fn)
            elif ref:
                r.append("  %s }" % got("apply_nonvoid_fn(%s, p)" % fn))
            else:
                r.append("  %s r = %s(); apply(&r, %s, p); %s }" % (f["ret"], f["ret"], fn, got("r")))
            r.append("if (op == \"applyv\") { vector<Val> v(a.begin(), a.end()); v.resize(a.size() + 2);")
            r.append("  %s }" % ("apply_void_fn(%s, v); return \"[]\";" % fn if void else got("apply_nonvoid_fn(%s, v)" % fn)))
            if hard:
                r.append("\n#endif\n")
            r.append("if (op == \"run\") %s" % got("callOnBuffer(*buf, %s)" % fn))
            r.append("if (op == \"runp\") %s" % got("buf->call(%s)" % fn))
            return r
        if free:
            o.append("  if (how == \"ptr\") {")
            o += ["    " + x for x in ways("(&" + name + ")")]
            o.append("  }")
            o += ["#ifndef UNROLLED", "  if (how == \"fun\") { std::function<%s(%s)> g = &%s;" % (f["ret"], types, name)]
            o += ["    " + x for x in ways("g")] + ["  }", "#endif"]
        else:
            for c, b in (("const", "*c%d" % i), ("bound", "*b%d" % i)):
                o.append("  if (how == \"%s\") {" % c)
                o += ["    " + x for x in ways(b.replace("*", "(*") + ")")]
                o.append("  }")
        o.append("  if (op == \"pack\") {")
        o.append("    if (how == \"raw\") { *buf%s; return \"\"; }" % "".join(" << Cv<%s>::mk(a[%d])" % (base(t), k) for k, t in enumerate(f["args"])) if n else "    if (how == \"raw\") return \"\";")
        conv = lambda t, e: "(int)" + e if base(t) in ("double", "float", "long", "short") else e
        o += ["#ifndef UNROLLED",
              "    if (how == \"args\") { buf->pack(%s); return \"\"; }" % ", ".join("Cv<%s>::mk(a[%d])" % (base(t), k) for k, t in enumerate(f["args"])),
              "    if (how == \"sig\") { buf->pack<F%d>(%s); return \"\"; }" % (i, ", ".join(conv(t, "Cv<%s>::mk(a[%d])" % (base(t), k)) for k, t in enumerate(f["args"])))]
        if free:
            o.append("    if (how == \"fun\") { buf->pack<%s(%s)>(%s); return \"\"; }" % (f["ret"], types, ", ".join(conv(t, "Cv<%s>::mk(a[%d])" % (base(t), k)) for k, t in enumerate(f["args"]))))
        o += ["#endif", "  }"]
        o.append("  if (op == \"describe\") {")

        def desc(F):
            r = "out << \"[\\\"arity\\\",\\\"\" << int(Arity<%s >::value) << \"\\\",\\\"\" << int(Arity<%s >::V) << \"\\\",\\\"ret\\\",\\\"\" << Nm<typename_(Return<%s >::T)>::s() << \"\\\",\\\"\" << Nm<typename_(Return<%s >::type)>::s() << \"\\\",\\\"args\\\"\"" % (F, F, F, F)
            for k in range(n):
                r += " << \",\\\"\" << Nm<Arg<%s,%d>::T>::s() << \"\\\",\\\"\" << Nm<Arg<%s,%d>::type>::s() << \"\\\"\"" % (F, k + 1, F, k + 1)
            return r.replace("typename_(", "").replace("::T)>", "::T>").replace("::type)>", "::type>") + " << \"]\";"
        o.append("    out << \"[\"; %s" % desc("F%d" % i))
        if not free:
            o += ["    out << \",\"; " + desc("B_%d" % i)]
            o.append("    out << \",[\\\"bound\\\",\\\"\" << B_%d::is_const << C_%d::is_const << \"\\\"]\";" % (i, i))
        else:
            o += ["#ifndef UNROLLED", "    out << \",\"; " + desc("std::function<%s(%s)>" % (f["ret"], types)),
                  "    out << \",\"; " + desc("%s(%s)" % (f["ret"], types)), "#endif"]
        o.append("    out << \",[\\\"is\\\",\\\"\" << is_member_function_ptr<F%d>::value << is_const_method<F%d>::value << is_nonmember_function_ptr<F%d>::value << classdesc::functional::is_function<F%d>::value << \"\\\"]\";" % ((i,) * 4))
        if not free:
            o.append("    out << \",[\\\"class\\\",\\\"\" << Nm<ClassOf<F%d>::T>::s() << \"\\\",\\\"\" << Nm<ClassOf<F%d>::type>::s() << \"\\\"]\";" % (i, i))
        o.append("    out << \"]\"; return out.str(); }")
        o.append("  return \"unknown\"; }")
    o.append("typedef string (*Do)(const string&, const string&, int, const vector<int>&);")
    o.append("Do table[] = {0%s};" % "".join(", do%d" % i for i in range(1, len(fns) + 1)))
    o.append(MAIN)
    return "\n".join(o) + "\n"


MAIN = r'''
int main() {
  for (int i = 0; i < nobj; i++) { store[i].me = store[i].me2 = &store[i]; }
  buf = new Buf;
  string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); string op, how; int f = 0, k = 0, x; vector<int> a; is >> op;
    if (op == "restart") { for (int i = 0; i < nobj; i++) sums[i] = 0; delete buf; buf = new Buf; std::cout << "{}" << std::endl; continue; }
    is >> how >> f >> k; while (is >> x) a.push_back(x);
    calls.clear(); string r, err;
    try { if (op == "clear") buf->clear(); else r = table[f](op, how, k, a); }
    catch (std::exception& e) { r = "[-777]"; }
    if (op == "describe") { std::cout << "{\"desc\":" << r << "}" << std::endl; continue; }
    std::cout << "{\"ret\":" << (r.empty() ? "[]" : r) << ",\"calls\":[";
    for (size_t i = 0; i < calls.size(); i++) std::cout << (i ? "," : "") << "{\"f\":" << calls[i].f << ",\"o\":" << calls[i].o << ",\"a\":" << list(calls[i].a) << "}";
    std::cout << "],\"sums\":" << list(vector<int>(sums, sums + nobj)) << "}" << std::endl;
  }
  std::cout << "{\"end\":1}" << std::endl;
}
'''

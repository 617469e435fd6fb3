"""Hierarchies of polymorphic classes, in the styles the library supports, for the drivers of universe.py.

An object behind a pointer is [k, members] (k: which class), a null pointer []."""
import universe as U

INT = U.S("int")
STYLES = ("crtp", "mixin", "object")


class Hierarchy(U.Universe):
    def __init__(self, rng, style, cpp11, n=4, ids="string"):
        self.rng, self.style, self.cpp11, self.ids = rng, style, cpp11, ids
        self.cpp17 = cpp11
        self.onbase = True
        self.xml = style != "object"
        self.ns = rng.choice(("", "pv"))
        self.enums, self.classes, self.body = [], [], []
        self.hier, self.parent, self.data = [], [], []
        self.root = "classdesc::object" if style == "object" else self.q("obj")
        for i in range(n):
            self.parent.append(rng.choice([None] + list(range(i)) * 2) if i != 1 or rng.random() < .3 else 0)
        self.any = self.poly("shared", self.root, range(n))
        for i in range(n):
            self.klass(i)

    def q(self, n):
        return (self.ns + "::" if self.ns else "") + n

    def poly(self, c, base, classes):
        return {"k": "poly", "c": c, "of": list(classes), "x": False, "z": False, "d": [],
                "cpp": ("classdesc::shared_ptr<%s >" if c == "shared" else "std::unique_ptr<%s >" if c == "unique" else "std::auto_ptr<%s >") % base}

    def derives(self, i, j):
        """is class i also a j?"""
        if self.style == "mixin":
            return i == j
        return i == j or (self.parent[i] is not None and self.derives(self.parent[i], j))

    def klass(self, i):
        rng = self.rng
        ms = []
        for j in range(rng.choice((0, 1, 2, 2, 3))):
            x = rng.random()
            t = INT if x < .25 else U.STR() if x < .45 else U.SEQ("vector", INT) if x < .55 else U.S("short") if x < .65 else self.any if x < .8 else \
                U.SEQ(rng.choice(("vector", "list")), self.any) if x < .9 else U.MAP("map", INT, self.any) if x < .95 else U.PAIR(INT, U.STR())
            ms.append(("m%d_%d" % (i, j), t))
        lines = ["  %s %s;" % (t["cpp"], n) for n, t in ms]
        init = ", ".join("%s()" % n for n, t in ms)
        p = self.parent[i]
        name = "K%d" % i
        if self.style == "mixin":
            base = "public K%d_b" % p if p is not None else ""
            self.body.append("struct K%d_b%s {\n%s\n  friend struct ::Probe;\n  K%d_b()%s {}\n};" % (i, ": " + base if base else "", "\n".join(lines), i, ": " + init if init else ""))
            d = U.CLASS("K%d_b" % i, [self.data[p]] if p is not None else [], ms, self.q("K%d_b" % i))
            self.data.append(d)
            self.classes.append(d)
            self.body.append("struct %s: public K%d_b, public Mix<%s> {enum {tid=%d};};" % (name, i, name, self.tid(i)))
            c = U.CLASS(name, [d], [], self.q(name))
        else:
            if self.style == "crtp":
                base = "Obj<%s%s>" % (name, ",K%d" % p if p is not None else "")
            else:
                base = "classdesc::Object<%s%s>" % (name, ",K%d" % p if p is not None else "")
            body = "{}"
            if self.style == "object" and p is None:
                body = "{++liveCount();}\n  %s(const %s& x): %s {++liveCount();}\n  ~%s() {--liveCount();}" % (name, name, ", ".join([base + "(x)"] + ["%s(x.%s)" % (n, n) for n, t in ms]), name)
            self.body.append("struct %s: public %s {\n  enum {tid=%d};\n%s\n  friend struct ::Probe;\n  %s()%s %s\n};" % (name, base, self.tid(i), "\n".join(lines), name, ": " + init if init else "", body))
            c = U.CLASS(name, [self.hier[p]] if p is not None else [], ms, self.q(name))
        self.hier.append(c)
        self.classes.append(c)

    def tid(self, i):
        return (7, -2, 300, 0, 41, 5)[i]

    def header(self):
        r = "#ifndef UNIVERSE_TYPES_H\n#define UNIVERSE_TYPES_H\n#include \"poly_headers.h\"\n"
        if self.style == "object":
            r += '#include "object.h"\nstruct Probe;\n'
        else:
            r += '#include "polyBase.h"\n#include "polyPackBase.h"\n#include "polyXMLBase.h"\n#include "xml_pack_base.h"\n#include "xml_unpack_base.h"\n#include <stdexcept>\nstruct Probe;\n'
        r += "".join("#include <%s>\n" % h for h in ("string", "vector", "list", "map", "memory"))
        r += "inline long& liveCount() {static long n=0; return n;}\n"
        if self.ns:
            r += "namespace %s {\n" % self.ns
        n = len(self.parent)
        if self.style != "object":
            if self.ids == "enum":
                r += "enum Kind {%s};\n" % ", ".join("kind%d=%d" % (i, self.tid(i)) for i in range(n))
            T = {"string": "std::string", "int": "int", "enum": "Kind"}[self.ids]
            r += "struct obj: public classdesc::PolyBase<%s>, virtual public classdesc::PolyPackBase, virtual public classdesc::PolyXMLBase\n{\n  obj() {++liveCount();}\n  obj(const obj&) {++liveCount();}\n  ~obj() {--liveCount();}\n  static obj* create(const %s&);\n};\n" % (T, T)
            ty = "%s type() const {return %s;}" % (T, {"string": "classdesc::typeName<T>()", "int": "T::tid", "enum": "Kind(T::tid)"}[self.ids])
            if self.style == "crtp":
                r += '''template <class T, class S=obj> struct Obj: public S
{
  %s
  Obj* clone() const {return new T(*static_cast<const T*>(this));}
  void pack(classdesc::pack_t& x, const std::string& d) const {::pack(x,d,static_cast<const T&>(*this));}
  void unpack(classdesc::pack_t& x, const std::string& d) {::unpack(x,d,static_cast<T&>(*this));}
  void xml_pack(classdesc::xml_pack_t& x, const std::string& d) const {::xml_pack(x,d,static_cast<const T&>(*this));}
  void xml_unpack(classdesc::xml_unpack_t& x, const std::string& d) {::xml_unpack(x,d,static_cast<T&>(*this));}
};
''' % ty
            else:
                r += '''template <class T> struct Mix: public classdesc::Poly<T,obj>, public classdesc::PolyPack<T>, public classdesc::PolyXML<T>
{
  %s
};
''' % ty
        r += "\n".join(self.body) + "\n" + ("}\n" if self.ns else "") + "#endif\n"
        return r

    def probes(self):
        n = len(self.hier)
        ptrs = [self.any["cpp"]] + [t["cpp"] for t in self.extra]
        r = "#include <set>\nextern std::set<const void*> seen;\n" + "".join("template <> struct V<%s > {static std::string get(const %s& x); static void set(%s& x, const J& j);};\n" % (p, p, p) for p in ptrs) + super().probes()
        for p in ptrs:
            get = "".join("  if (typeid(*x)==typeid(%s)) return \"[\\\"k%d\\\",\"+V<%s >::get(dynamic_cast<const %s&>(*x))+\"]\";\n" % (c["cpp"], i, c["cpp"], c["cpp"]) for i, c in enumerate(self.hier))
            of = next(t["of"] for t in [self.any] + self.extra if t["cpp"] == p)
            put = "".join("  if (j[0].s==\"k%d\") {%s* o=new %s; x.reset(o); V<%s >::set(*o,j[1]); return;}\n" % (i, c["cpp"], c["cpp"], c["cpp"]) for i, c in enumerate(self.hier) if i in of)
            poke = put.replace("x.reset(o); ", "")
            r += "std::string V<%s >::get(const %s& x)\n{\n  if (!x.get()) return \"[]\";\n  seen.insert(dynamic_cast<const void*>(x.get()));\n%s  return \"[]\";\n}\n" % (p, p, get)
            r += "void V<%s >::set(%s& x, const J& j)\n{\n  if (!j.size()) {x.reset(); return;}\n%s}\n" % (p, p, put)
        root = self.root
        r += "typedef %s Root;\n" % root
        r += "static void poke(Root& x, const J& j)\n{\n" + "".join("  if (j[0].s==\"k%d\") {V<%s >::set(dynamic_cast<%s&>(x),j[1]); return;}\n" % (i, c["cpp"], c["cpp"]) for i, c in enumerate(self.hier)) + "}\n"
        if self.style != "object":
            r += "static void registerAll() {}\n"
            r += "static Root* castClone(const Root& x, int k)\n{\n" + "".join("  if (k==%d) return x.cloneT<%s >();\n" % (i, c["cpp"]) for i, c in enumerate(self.hier)) + "  return 0;\n}\n"
            how = {"string": "t==classdesc::typeName<%s >()", "int": "t==%s::tid", "enum": "int(t)==%s::tid"}[self.ids]
            r += "%s* %s::create(const %s::Type& t)\n{\n" % (root, root, root) + "".join("  if (%s) return new %s;\n" % (how % c["cpp"], c["cpp"]) for c in self.hier) + "  throw std::runtime_error(\"unknown type\");\n}\n"
        else:
            r += "static Root* castClone(const Root& x, int k)\n{\n" + "".join("  if (k==%d) {const %s* y=dynamic_cast<const %s*>(&x); return y? y->cloneT(): 0;}\n" % (i, c["cpp"], c["cpp"]) for i, c in enumerate(self.hier)) + "  return 0;\n}\n"
            r += "static void registerAll() {" + " ".join("%s().type();" % c["cpp"] for c in self.hier) + "}\n"
        return r

    # ---- values
    def value(self, t, depth=0, nulls=True):
        rng = self.rng
        k = t["k"]
        if k == "poly":
            if depth > 3 or (nulls and rng.random() < .2):
                return [] if nulls else ["k0", self.plain(self.hier[0])]
            i = rng.choice(t["of"])
            if not nulls and depth > 2:
                i = min(t["of"])
                return ["k%d" % i, self.plain(self.hier[i])]
            return ["k%d" % i, self.value(self.hier[i], depth + 1)]
        if k == "scalar":
            return U.sc_value(rng, t["c"])
        if k == "str":
            return "".join("%02x" % rng.randrange(32, 127) for _ in range(rng.choice((0, 1, 3, 12)))) or "-"
        inside = nulls_in_containers[0]
        if k == "seq":
            return [self.value(t["e"], depth + 1, inside) for _ in range(rng.choice((0, 1, 2, 3) if depth < 2 else (0, 1)))]
        if k == "map":
            return [[self.value(t["a"]), self.value(t["b"], depth + 1)] for _ in range(rng.choice((0, 1, 2) if depth < 2 else (0, 1)))]
        if k == "pair":
            return [self.value(t["a"], depth), self.value(t["b"], depth)]
        return [self.value(u, depth) for u in t["m"]]

    def plain(self, t):
        """an object that points to nothing"""
        return t["d"]


nulls_in_containers = [True]

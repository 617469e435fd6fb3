"""C++ class definitions for the processor: constructs, their rendering, and the driver that runs the descriptors.

A construct ("kind") is described to the specification by what it declares
(c: category; st, co: static, const; d: its declarators, in order, each with
a form and, for arrays, dimensions) and to the renderer by its text, where $1,
$2... are the names declared, $C the class (with its template arguments), $K
its bare name.
"""
import json, os, re
import vlib

KINDS = []


def rank(std):
    """C++98 comes first"""
    return 3 if std == 98 else std


def kind(text, c="data", d="s", st=0, co=0, std=11, **kw):
    """d: declarators: s scalar, aN[xM...] array; methods: m visited, - not"""
    ds = []
    for x in d.split():
        ds.append({"f": x[0], "dims": [int(y) for y in x[1:].split("x")] if len(x) > 1 else []})
    k = dict(t=text, c=c, d=ds, st=st, co=co, std=rank(std))
    k.update(kw)
    KINDS.append(k)


# data members
kind("int $1;", std=98)
kind("int $1, $2;", d="s s", std=98)
kind("double * $1;", std=98)
kind("const char *$1, **$2;", d="s s", std=98)
kind("int $1[3];", d="a3", std=98)
kind("short $1[2][3];", d="a2x3", std=98)
kind("int $1[2][1][4], $2;", d="a2x1x4 s", std=98)
kind("int $1[2][1][3][2], $2[1][2][1][1][2];", d="a2x1x3x2 a1x2x1x1x2", std=98)
kind("char $1 [ 2 ] , $2 , $3 [ 3 ] ;", d="a2 s a3", std=98)
kind("int $1, $2[2], *$3;", d="s a2 s", std=98)
kind("int $1[gconst];", d="a5", std=98)
kind("int $1[sizeof(int)*2], $2[1+(2*3)];", d="a8 a7", std=98)
kind("int $1=3;")
kind("int $1=3, $2, $3=4;", d="s s s")
kind("int $1{3};")
kind("int $1{3}, $2{4}, $3;", d="s s s")
kind("int $1=gfun(1,gconst,2), $2;", d="s s")
kind("int $1=gfun(gconst,gconst,gconst);")
kind("int $1=sizeof(int);")
kind("bool $1=gconst<3;")
kind("int $1[2]={1,2};", d="a2")
kind("int $1[2]={1,2}, $2=3;", d="a2 s")
kind("int $1[2]{1,2};", d="a2")
kind("std::string $1=\"a;b}c{\";")
kind("char $1='}', $2=';', $3='\\'';", d="s s s")
kind("std::map<int,int> $1={{1,2},{3,4}};")
kind("std::map<int,int> $1{{1,2},{3,4}};")
kind("std::map<int,int> $1=std::map<int,int>(), $2;", d="s s")
kind("std::vector<int> $1;", std=98)
kind("std::map<int,std::vector<int> > $1, $2;", d="s s", std=98)
kind("std::map<int,std::vector<int>> $1, $2;", d="s s")
kind("std::map<std::vector<std::vector<int>>,int> $1[2];", d="a2")
kind("std::vector<std::pair<int,std::vector<std::vector<int>>>> $1;")
kind("::std::string $1;", std=98)
kind("std :: vector < std :: string > $1 ;", std=98)
kind("unsigned long long int $1;", std=98)
kind("Part $1;", std=98)
kind("Part $1[2];", d="a2", std=98)
kind("struct Part $1;", std=98)
kind("struct Part $1, $2;", d="s s", std=98)
kind("class Aux $1;", std=98)
kind("enum Hue $1;", std=98)
kind("Hue $1;", std=98)
kind("struct N_$K_$1 {int z;} $2;", d="- s", c="nestedvar", std=98)
kind("enum {w_$K_$1, v_$K_$1} $2;", d="- s", std=98)
kind("enum F_$K_$1 {fa_$K_$1, fb_$K_$1=3} $2;", d="- s", std=98)
kind("union {int a; float b[2];} $1;", d="a8", c="union", std=98)
kind("mutable int $1;", std=98)
kind("volatile int $1;", std=98)
kind("const int $1=7;")
kind("int const $1=7, $2=9;", d="s s")
kind("const std::vector<int> $1;", std=98, ctor=1)
kind("int& $1=gref;")
kind("const int &$1=gref, $2=5;", d="s s")
kind("int (*$1)(int);", std=98)
kind("int (*$1)(int, const char*), $2;", d="s s", std=98)
kind("int (Part::*$1)(int) const;", std=98)
kind("int Part::*$1;", std=98)
kind("void (*$1)();", std=98)
kind("std::function<int(int,int)> $1;")
kind("static int $1;", st=1, std=98, define=1)
kind("static int $1, $2;", st=1, d="s s", std=98, define=1)
kind("static int $1[3];", st=1, d="a3", std=98, define=1)
kind("static std::vector<const int*> $1;", st=1, std=98, define=1)
kind("inline static int $1=4;", st=1, std=17)
kind("static inline std::string $1=\"x\", $2;", st=1, d="s s", std=17)
kind("static const int $1=5;", st=1, co=1, std=98, const="const int")
kind("const static int $1=5, $2=6;", st=1, co=1, d="s s", std=98, const="const int")
kind("static const unsigned long $1=5;", st=1, co=1, std=98, const="const unsigned long")
kind("int static const $1=5;", st=1, co=1, std=98, const="const int")
kind("static constexpr int $1=5;", st=1, std=17)
kind("static const bool $1=true;", st=1, co=1, std=98, const="const bool")
kind("alignas(16) int $1;")
kind("[[maybe_unused]] int $1;", std=17)
kind("int $1 [[maybe_unused]];", std=17)
kind("/* int a; */ int /* x, y */ $1; // int b;\n", std=98)
kind("int $1 // a comment, here; {\n, $2 /* and [3] */ ; /**/ ", d="s s", std=98)
kind("  int\n\t$1\n\t;\n", std=98)
kind("int $1\\\n;", std=98)
kind("bool publicity_$1, constant_$1x;", d="s s", std=98, names=["publicity_$1", "constant_$1x"])
kind("int staticx_$1, operator_$1, classy_$1, enum_$1;", d="s s s s", std=98, names=["staticx_$1", "operator_$1", "classy_$1", "enum_$1"])

# methods
M = dict(c="method", d="m")
kind("void $1() {}", std=98, **M)
kind("void $1();", std=98, defmeth="void $C::$1() {}", **M)
kind("int $1(int a, int b) const;", std=98, defmeth="int $C::$1(int a, int b) const {return a+b;}", **M)
kind("int $1(int a, const char* b=\"x,y)(;\", int c=gfun(1,2,3)) const {return a;}", std=98, **M)
kind("virtual void $1(int) {}", std=98, **M)
kind("virtual int $1() const {return 1;}", std=98, **M)
kind("virtual ~$K() {}", c="method", d="", std=98, once="dtor")
kind("static int $1(int x) {return x;}", std=98, **M)
kind("static void $1() {}", std=98, **M)
kind("const std::string& $1() const {static const std::string s; return s;}", std=98, **M)
kind("static const std::string $1() {return \"\";}", std=98, **M)
kind("std::map<int,std::vector<int>> $1(std::map<int,int> x) {return std::map<int,std::vector<int>>();}", **M)
kind("inline int* $1(int* x) {return x;}", std=98, **M)
kind("int $1() const noexcept {return 1;}", std=17, **M)
kind("int $1() noexcept(true) {return 1;}", std=17, **M)
kind("auto $1() -> int {return 1;}", **M)
kind("auto $1(int x) const -> decltype(x) {return x;}", **M)
kind("int $1(int (*f)(int)) {return f(1);}", std=98, **M)
kind("int $1(int (*)(int), int x=3) {return x;}", std=98, **M)
kind("void $1(const std::function<void(int)>& f) {f(1);}", **M)
kind("void $1(void) {}", std=98, **M)
kind("void $1(int[2], Part&, Part* =0) {}", std=98, **M)
kind("void $1() {if (1) {const char* s=\"}\"; char c='{'; (void)s; (void)c;} /* } */ // }\n for (int i=0; i<2; ++i) {int z[2]={1,2}; (void)z;} }", std=98, **M)
kind("struct Part $1(int x) {return Part();}", std=98, **M)
kind("enum Hue $1() {return Hue();}", std=98, **M)
kind("[[nodiscard]] int $1() {return 1;}", std=17, **M)
kind("void $1() {} void $1(int) {}", c="method", d="- -", std=98, names=["$1", "$1"])
kind("int $1() {return 1;} int $1() const {return 2;}", c="method", d="- -", std=98, names=["$1", "$1"])
kind("template <class W> void $1(W) {}", c="method", d="-", std=98)
kind("template <class W, int m> W $1(W x) {return x;}", c="method", d="-", std=98)
kind("virtual void $1()=0;", std=98, pure="void $1() {}", **M)
kind("virtual int $1(int, int=2) const = 0;", std=98, pure="int $1(int, int) const {return 1;}", **M)
kind("void $1()=delete;", c="method", d="-")
kind("void $1(int) = delete;", c="method", d="-")
O = dict(c="method", d="")
kind("bool operator==(const $C&) const {return true;}", std=98, once="op==", **O)
kind("bool operator<(const $C& x) const;", std=98, once="op<", **O)
kind("void operator()(int x, int y) {}", std=98, once="op()", **O)
kind("int operator()() const {return 1;}", std=98, once="op()c", **O)
kind("operator int() const {return 1;}", std=98, once="opint", **O)
kind("operator std::vector<int>() {return std::vector<int>();}", std=98, once="opvec", **O)
kind("int operator[](int i) {return i;}", std=98, once="op[]", **O)
kind("$C& operator=(const $C& x) {return *this;}", std=98, once="op=", **O)
kind("$C* operator->() {return this;}", std=98, once="op->", **O)
kind("$C& operator++() {return *this;}", std=98, once="op++", **O)
kind("static void* operator new(size_t sz) {return malloc(sz);}", std=98, once="opnew", **O)
kind("void operator+=(int) {}", std=98, once="op+=", **O)
kind("$K(int x) {}", std=98, once="ctor1", ctor=1, **O)
kind("explicit $K(char x, int y=3) {}", std=98, once="ctor2", ctor=1, **O)
kind("$K(const $K& x) {}", std=98, once="ctorcopy", ctor=1, **O)
kind("$K(const $K&)=default;", once="ctorcopy", ctor=1, **O)
kind("$K(short x): ini_$1(x), ini_$1b(x) {}\n int ini_$1, ini_$1b;", d="s s", std=98, once="ctor3", ctor=1, names=["ini_$1", "ini_$1b"])
kind("$K(short x, short y): ini_$1{x}, ini_$1b{y} {}\n int ini_$1, ini_$1b;", d="s s", once="ctor4", ctor=1, names=["ini_$1", "ini_$1b"])
kind("~$K() {}", std=98, once="dtor", **O)
kind("~$K();", std=98, once="dtor", defmeth="$C::~$K() {}", **O)

# types and friends
T = dict(c="type", d="")
kind("typedef int T_$K_$1;", std=98, **T)
kind("typedef std::map<int,int> T_$K_$1;", std=98, **T)
kind("typedef int (*T_$K_$1)(int);", std=98, **T)
kind("typedef Part T_$K_$1[3];", std=98, **T)
kind("typedef struct {int a, b;} T_$K_$1;", std=98, **T)
kind("typedef enum {ta_$K_$1, tb_$K_$1} T_$K_$1;", std=98, **T)
kind("using T_$K_$1=std::vector<int>;", **T)
kind("class Fwd_$1;", std=98, **T)
kind("struct N_$K_$1 {int z; int y[2];};", std=98, **T)
kind("struct N_$K_$1: public Part {N_$K_$1(): z(1) {} private: int z;};", std=98, **T)
kind("class N_$K_$1 {public: int z; struct Q {int a;}; Q q;};", std=98, **T)
kind("template <class W> struct N_$K_$1 {W z;};", std=98, **T)
kind("template <class W> class N_$K_$1;", std=98, **T)
kind("union U_$K_$1 {int a; float b;};", std=98, **T)
kind("enum E_$K_$1 {ea_$K_$1, eb_$K_$1};", std=98, **T)
kind("enum class E_$K_$1: char {x, y=7};", **T)
kind("enum {ec_$K_$1=3, ed_$K_$1};", std=98, **T)
kind("enum E_$K_$1: int;", **T)
kind("friend class Fwd;", std=98, **T)
kind("friend struct Part;", std=98, **T)
kind("friend void gfriend(int);", std=98, **T)
kind("friend bool operator!=(const $C&, const $C&) {return false;}", std=98, once="frop", **T)
kind("friend int gfr_$K_$1(const $C& x) {int y=1; if (y) {return 2;} return 1;}", std=98, **T)
kind("template <class W> friend struct Fwdt;", std=98, **T)
kind(";", std=98, **T)
kind("static_assert(sizeof(int)==4,\"; int q;\");", **T)
kind("#pragma GCC diagnostic push\n", std=98, **T)

NAMES = ["a", "m", "x_", "name", "Value", "_u", "i1", "theLongestNameOfAll", "cls", "T2", "arg", "desc"]

# data members of templates
G = dict(tmpl=1)
kind("T $1;", std=98, **G)
kind("T $1, *$2;", d="s s", std=98, **G)
kind("std::vector<T> $1;", std=98, **G)
kind("std::map<int,std::vector<T> > $1[2];", d="a2", std=98, **G)
kind("T $1[3][2];", d="a3x2", std=98, **G)
kind("typename Traits<T>::type $1;", std=98, **G)
kind("typename Traits<std::vector<T> >::type $1, $2[2];", d="s a2", std=98, **G)
kind("T $1(T x, const T& y) const {return x;}", c="method", d="m", std=98, **G)
kind("template <class W> W $1(T x) {return W();}", c="method", d="-", std=98, **G)
kind("static const int $1=sizeof(T);", st=1, co=1, std=98, **G)

# what else may stand between classes
OTHERS = [
    "extern int f_$;", "int fn_$(int a, struct Part* p);", "inline int fn_$(int a) {struct L {int z;} l; l.z=a; return l.z;}",
    "typedef struct {int a; int b[2];} Ts_$;", "typedef struct Tag_$ {int a;} Ts_$;", "typedef int (*Fp_$)(int);",
    "typedef enum {te_$, tf_$} Te_$;", "enum E_$ {ea_$, eb_$=5};", "enum {ec_$, ed_$};",
    "class Fw_$;", "struct Fw_$;", "template <class U> struct Fwt_$;", "template <class U, int n> class Fwt_$;",
    "template <class U> U ft_$(U x) {return x;}", "template <class U> inline typename Traits<U>::type ft_$(U x) {return typename Traits<U>::type();}",
    "static const char* s_$=\"struct Q {int x; };\";", "static const char c_$='{';", "static const int i_$[3]={1,2,3};",
    "/* struct Comment {int x;}; */", "// class Comment {\n", "#define MAC_$(x) x; {\n", "#if 0\n#endif\n",
    "extern \"C\" int fc_$(int);", "using std::vector;", "namespace al_$ {}", "struct Part gv_$f();", "extern struct Part gv_$;",
    "union U_$ {int a; float b;};", "inline bool operator==(const Part& x, const Aux& y) {return x.p==y.u;}@once",
    "template <class U> struct Ts_$ {}; template <> struct Ts_$<int> {};",
    "inline int fl_$() {int x=1; if (x<2 && x>0) {return 1;} return 2;}", ";", "static inline struct Part mk_$() {return Part();}",
    "class Kq_$ {int Kq_$::* p; Kq_$();};",
]
OTHERS11 = [
    "using Ua_$=std::map<int,std::vector<int>>;", "template <class U> using Ut_$=std::vector<U>;", "enum class Es_$: unsigned char {a, b=7};",
    "enum Eo_$: int;", "static const char* r_$=R\"(struct Q {int x; \")\";", "static_assert(sizeof(int)==4, \"struct X {\");",
    "inline auto al_$=[](int x) {struct L {int z;}; return x;};@17", "constexpr int ce_$(int x) {return x<3? 1: 2;}",
    "inline int rq_$() {auto f=[](int x) {return x+1;}; return f(1'000);}@14", "inline namespace in_$ {struct In_$ {int q;};}",
    "template <class... U> struct Vt_$;", "template <class... U> void vf_$(U... u) {}", "struct Fin_$ final {int a;};",
]
# bases: (text, the type)
BASES = ["Part", "Aux", "Tb<int>", "Tb<std::map<int,int> >", "nsb::Base", "::nsb::Base2", "nsb::Outer::Inner", "Big", "nsb::inner::Tq<int,3>"]
TARGS = {"class T": ["int", "Part", "std::vector<int>"], "typename T": ["double"], "class T, int n": ["int,3", "Part,(4>3)"],
         "class T, class U": ["int,std::string"], "class T, class U=std::map<int,int>": ["int", "int,char"]}


def usable(std, tmpl=False):
    return [k for k in KINDS if k["std"] <= rank(std) and (tmpl or not k.get("tmpl"))]


def abstract(k):
    """what the specification is told of a construct"""
    return {"c": k["c"], "d": k["d"], "st": k["st"], "co": k["co"]}


# what stands for the others where scopes rather than declarations are explored
SMALL = ["int $1;", "void $1() {}", "int $1, $2[2], *$3;", "typedef int T_$K_$1;", "static const int $1=5;", "friend class Fwd;"]


def setup(ctx, opt):
    p = os.path.join(ctx.work, "setup-%s.json" % "".join("%s%d" % x for x in sorted(opt.items())))
    if not os.path.exists(p):
        with open(p, "w") as f:
            json.dump({"kinds": [abstract(k) for k in KINDS], "opt": opt,
                       "small": [i + 1 for i, k in enumerate(KINDS) if k["t"] in SMALL]}, f)
    return p


class Class:
    def __init__(self, cid, bare, qual, inst, kw, tmpl, parent):
        self.cid, self.bare, self.qual, self.inst, self.kw, self.tmpl, self.parent = cid, bare, qual, inst, kw, tmpl, parent
        self.names, self.once, self.ctor, self.pure, self.bases, self.visits = {}, set(), False, [], [], []
        self.described = True


class Program:
    """Renders a history of the specification as a header.  access: the line that makes private members
    accessible is written (otherwise left to the user or the tool)."""
    def __init__(self, rng, uniq, access=True, std=17, mbr=False):
        self.rng, self.uniq, self.access, self.std, self.mbr = rng, uniq, access, std, mbr
        self.out, self.classes, self.stack, self.n, self.defs, self.kept, self.once = [], [], [], 0, [], [], set()
        self.done = []

    def name(self):
        self.n += 1
        return "%s%s_%d" % (self.rng.choice(NAMES), self.uniq, self.n)

    def quals(self):
        return "".join(s + "::" for s, _ in self.stack)

    def put(self, t):
        self.out.append(t)

    def events(self, evs):
        """renders the events that can be; returns those"""
        for e in evs:
            if getattr(self, "op_" + e["op"])(e) is not False:
                self.kept.append(e)
        return self

    def op_ns(self, e):
        n = "ns%s_%d" % (self.uniq, len(self.kept))
        self.put("namespace %s {" % n)
        self.stack.append((n, None))

    def op_nsend(self, e):
        self.stack.pop()
        self.put("}")

    def op_other(self, e):
        t = e["t"]
        if "@once" in t:
            if t in self.once:
                return False
            self.once.add(t)
            t = t.replace("@once", "")
        t = re.sub("@1.$", "", t)
        self.n += 1
        self.put(t.replace("$", "%s_%d" % (self.uniq, self.n)))

    def op_open(self, e):
        rng = self.rng
        self.n += 1
        bare = "%s%s_%d" % (rng.choice(["K", "Class", "a", "x_"]), self.uniq, self.n)
        parent = self.stack[-1][1] if self.stack else None
        tm = e.get("params")
        inst = self.quals() + bare
        head = ""
        if tm:
            arg = rng.choice(TARGS[tm])
            if arg[-1] == ">":
                arg += " "
            tparams = "template <%s>" % tm
            if e.get("spec"):
                self.put("%s struct %s;" % (tparams, bare))
                tparams, bare_ = "template <>", "%s<%s>" % (bare, arg)
                head = "%s %s" % (e["kw"], bare_)
                if e["spec"] == 2 and tm == "class T":
                    tparams, arg = "template <class T>", "int*"
                    head = "%s %s<T*>" % (e["kw"], bare)
            else:
                head = "%s %s" % (e["kw"], bare)
            self.put(tparams)
            inst += "<%s>" % arg
        else:
            head = "%s %s" % (e["kw"], bare)
        if e.get("final"):
            head += " final"
        c = Class(len(self.classes), bare, self.quals() + bare, inst, e["kw"], bool(tm) or bool(parent and parent.tmpl), parent)
        if parent and hasattr(parent, "full"):
            c.full = True
        c.described = e["described"] if "described" in e else True
        if parent and not parent.described:
            c.described = False
        self.classes.append(c)
        bs = []
        for b in e["bases"]:
            w = [x for x in ({"pub": "public", "priv": "private", "prot": "protected", "none": ""}[b["a"]], "virtual" if b["v"] else "") if x]
            rng.shuffle(w)
            bs.append(" ".join(w + [b["b"]]))
            c.bases.append(b["b"])
        if bs:
            head += rng.choice([": ", " : ", " :\n "]) + rng.choice([", ", ","]).join(bs)
        if tm and e.get("spec") and head.find("<T*>") < 0:
            c.full = True
        self.put(head + rng.choice([" {", "\n{", "{"]))
        c.final = bool(e.get("final"))
        c.acc = "priv" if e["kw"] == "class" else "pub"
        self.stack.append((bare if not tm else "%s<%s>" % (bare, arg), c))
        c.access = self.access and not e.get("noaccess")
        c.acat = rng.randrange(3)
        if c.access and c.acat == 0:
            self.acc_line(c)

    def acc_line(self, c):
        me = c.bare if not c.tmpl else c.bare
        self.put("CLASSDESC_ACCESS(%s);" % me)
        c.access = False

    def op_label(self, e):
        self.stack[-1][1].acc = e["a"]
        self.put({"pub": "public", "priv": "private", "prot": "protected"}[e["a"]] + self.rng.choice([":", " :", ":\n"]))

    def op_decl(self, e):
        rng = self.rng
        c = self.stack[-1][1]
        k = KINDS[e["k"] - 1]
        if k.get("once"):
            if k["once"] in c.once:
                return False
        if k.get("once") == "dtor" and c.acc != "pub" or k.get("pure") and c.final:
            return False
        if k.get("tmpl") and not c.tmpl or k["std"] > rank(self.std):
            return False
        if c.tmpl and (k.get("define") or k.get("defmeth")) or (k.get("pure") and (c.parent or c.tmpl)):
            return False
        if c.tmpl and self.mbr and k["st"] and k["co"]:
            return False       # pointers to constants need these to be defined
        if k.get("tmpl") and hasattr(c, "full"):
            return False
        if k.get("once"):
            c.once.add(k["once"])
        if c.access and c.acat == 1 and rng.randrange(10) == 0:
            self.acc_line(c)
        names = {str(i): self.name() for i in range(1, 5)}
        cls = c.qual if not c.tmpl else c.bare

        def sub(t):
            t = re.sub(r"\$(\d)", lambda m: names[m.group(1)], t)
            return t.replace("$C", cls).replace("$K", c.bare)
        vis = [sub(x) for x in k["names"]] if "names" in k else [names[str(i + 1)] for i in range(len(k["d"]))]
        self.put(sub(k["t"]))
        e["names"] = vis
        e["cls"] = c.cid
        for i, (n, d) in enumerate(zip(vis, k["d"])):
            c.names[n] = (e, i + 1, how(k, d), k)
        if k.get("ctor"):
            c.ctor = True
        if k.get("pure"):
            c.pure.append(sub(k["pure"]))
        if k.get("define"):
            ty = re.sub(r"\$.*", "", k["t"]).replace("static ", "")
            for n, d in zip(vis, k["d"]):
                self.defs.append("%s %s::%s%s;" % (ty, c.qual, n, "".join("[%d]" % x for x in d["dims"])))
        if k.get("const") and not c.tmpl:
            for n in vis:
                self.defs.append("%s %s::%s;" % (k["const"], c.qual, n))
        if "defmeth" in k:
            self.defs.append(sub(k["defmeth"]).replace(" %s::" % c.bare, " %s::" % c.qual))

    def op_close(self, e):
        n, c = self.stack.pop()
        if c.access:
            self.acc_line(c)
        if c.ctor:
            self.put("public: %s() {}" % c.bare)
        t = "}"
        ds = []
        e["names"] = []
        e["cls"] = c.cid
        if e["d"]:
            p = self.stack[-1][1]
            for i, d in enumerate(e["d"]):
                nm = self.name()
                e["names"].append(nm)
                ds.append(nm + "".join("[%d]" % x for x in d["dims"]))
                p.names[nm] = (e, i + 1, d["f"] if d["f"] != "s" else "v", {"c": "data"})
            t += " " + ", ".join(ds)
        self.put(t + ";")
        self.done.append(c)

    def header(self):
        return "\n".join(self.out) + "\n"


def how(k, d):
    return d["f"] if d["f"] != "s" else "c" if k["st"] and k["co"] else "v"


def table_code(c):
    """what the members of a class are, looked up by their names"""
    lines = []
    cls = c.inst
    make = cls
    if c.pure:
        lines.append("struct Mk_%s_%d: public %s {%s};" % (c.bare, c.cid, cls, " ".join(c.pure)))
        make = "Mk_%s_%d" % (c.bare, c.cid)
    lines.append("void* make_%s(vector<pair<string,string> >& t) {typedef %s K_; %s* o=new %s(); K_& k=*o; (void)k;" % (c.bare, cls, make, make))
    for n, (e, i, h, kk) in c.names.items():
        if h == "v":
            lines.append('t.push_back(make_pair(string("%s"),probeAt(k.%s)));' % (n, n))
        elif h == "a" and kk["c"] == "union":
            lines.append('t.push_back(make_pair(string("%s"),probeAt(reinterpret_cast<char&>(k.%s))));' % (n, n))
        elif h == "a":
            d = kk["d"][i - 1] if "d" in kk else e["d"][i - 1]
            lines.append('t.push_back(make_pair(string("%s"),probeAt(k.%s%s)));' % (n, n, "[0]" * len(d["dims"])))
        elif h == "c":
            lines.append('t.push_back(make_pair(string("%s"),probeVal(k.%s)));' % (n, n))
        elif h == "m":
            lines.append('t.push_back(make_pair(string("%s"),probePtr(&K_::%s)));' % (n, n))
    for b in c.bases:
        b = b.replace("struct ", "")
        lines.append('t.push_back(make_pair(string(""),probeAt((%s&)k)));' % b)
    lines.append("return &k;}")
    return "\n".join(lines)


def errors(msg, text):
    r, lines = [], text.split("\n")
    for l in msg.split("\n"):
        if "error" in l and len(r) < 6:
            m = re.search(r"p.h:(\d+)", l)
            r.append(re.sub(r"^\S*/", "", l)[:400])
            if m:
                n = int(m.group(1)) - 3
                r += ["    " + x for x in lines[max(0, n - 1):n + 2]]
    return "\n".join(r)


def build_and_run(ctx, prog, name, flags, std, header=None, insert=False):
    """the processor's output for the program, compiled together with it and run; fills in the observations.
    Returns what went wrong, if anything did"""
    d = os.path.join(ctx.work, name)
    os.makedirs(d)
    pre = PRELUDE % ("#include <functional>" if rank(std) >= 11 else "")
    text = header if header is not None else pre + prog.header()
    with open(os.path.join(d, "p.h"), "w") as f:
        f.write("#ifndef P_H\n#define P_H\n" + text + "#endif\n")
    friends = None
    if insert:
        bad, friends = insert_friend(ctx, d)
        if bad:
            return bad
    rc, o, err = vlib.gen_cd(ctx.cd, os.path.join(d, "p.h"), ["probe"], os.path.join(d, "p.cd"), flags)
    if rc != 0:
        return "classdesc %s fails (%s): %s" % (" ".join(flags), rc, err[-300:])
    seen = [c for c in prog.classes if c.described]
    inc = '#include "p.h"\n#include "probe_base.h"\n%s#include "classdesc_epilogue.h"\n#include <stdio.h>\nusing namespace std; using namespace classdesc;\n'
    with open(os.path.join(d, "table.cc"), "w") as f:
        f.write(inc % "" + TABLEPRE + "\n".join(prog.defs) + "\n" + "\n".join(table_code(c) for c in seen) + "\n")
    with open(os.path.join(d, "main.cc"), "w") as f:
        f.write(inc % '#include "p.cd"\n' + MAINPRE)
        for c in seen:
            f.write("void* make_%s(vector<pair<string,string> >&);\n" % c.bare)
        f.write("int main() {\n")
        for c in seen:
            f.write("{vector<pair<string,string> > tab; void* o=make_%s(tab); probe_t t; classdesc_access::access_probe<%s >()(t,\"r\",*(%s*)o); show(%d,tab,t);}\n" % (c.bare, c.inst, c.inst, c.cid))
        f.write("}\n")
    exe = os.path.join(d, "run")
    hd = os.path.join(vlib.VERIF, "harness")
    jobs = [("table.cc", ["-fno-access-control"]), ("main.cc", [])]
    for s, x in jobs:
        rc, msg = vlib.compile_cxx(ctx.cd, [os.path.join(d, s)], os.path.join(d, s[:-3] + ".o"), std="c++%02d" % std, san=None, incs=[hd, d], libs=(), opt="-O0", extra=["-c"] + x)
        if rc != 0:
            if s == "table.cc":
                raise vlib.CheckError("the program of the check does not compile:\n" + errors(msg, text) + " ".join(open(os.path.join(d, s)).read().split("\n")[int(x) - 1][:400] for x in re.findall(r"table.cc:(\d+):", msg)[:2]))
            return "the output of classdesc %s does not compile: %s" % (" ".join(flags), errors(msg, text)[:600])
    rc, o, err = vlib.sh(["g++", os.path.join(d, "table.o"), os.path.join(d, "main.o"), "-o", exe])
    if rc != 0:
        return "the output of classdesc %s does not link: %s" % (" ".join(flags), err[-300:])
    rc, o, err = vlib.run_harness(exe, "", timeout=20)
    if rc != 0:
        return "the descriptors: " + vlib.crash_text(rc, err)
    res = {}
    for l in o.split("\n"):
        if l.startswith("{"):
            j = json.loads(l)
            res[j["c"]] = j
    observe(prog, res)
    if insert:
        for e in prog.kept:
            if e["op"] == "close":
                e["seen"]["friend"] = prog.classes[e["cls"]].bare in friends
    return None


def insert_friend(ctx, d):
    """runs the tool on the program; it may only insert declarations. Returns the classes they name"""
    p = os.path.join(d, "p.h")
    rc, o, err = vlib.sh("%s/insert-friend < %s > %s.new" % (ctx.cd, p, p))
    if rc != 0:
        return "insert-friend fails: %s" % err[-300:], None
    old, new = open(p).read(), open(p + ".new").read()
    # the program's own macro definition is the only other mention
    pat = r"\n[ \t]*CLASSDESC_ACCESS(?:_TEMPLATE)?\(\s*([^()\n]*?)\s*\);[ \t]*\n"
    names = [re.sub(r"[ <].*", "", x) for x in re.findall(pat, new)]
    squeeze = lambda t: re.sub(r"\s+", " ", t)
    if squeeze(re.sub(pat, " ", new)).replace(" ", "") != squeeze(old).replace(" ", ""):
        return "insert-friend changes more than it should", None
    os.rename(p + ".new", p)
    return None, set(names)


def observe(prog, res):
    """attributes each visit to the event that declared what was visited"""
    opens = {}
    for e in prog.kept:
        if e["op"] == "decl":
            e["seen"] = []
        elif e["op"] == "close":
            e["seen"] = {"ordered": True, "extra": 0, "members": []}
            opens[e["cls"]] = e
    order = []
    for e in prog.kept:
        if e["op"] == "open":
            e["seen"] = []
            order.append(e)
    opened = dict(zip((c.cid for c in prog.classes), order))
    for c in prog.classes:
        if c.cid not in res:
            continue
        j = res[c.cid]
        tab, bases = {}, []
        for n, i in j["t"]:
            if n:
                tab[n] = i
            else:
                bases.append(i)
        pos, end = -1000, opens[c.cid]["seen"]
        keys = list(c.names)
        for p, k, i, dims in j["v"]:
            if p == "r":
                if i in bases:
                    x, at = bases.index(i), bases.index(i) - len(bases)
                    bases[x] = None
                    opened[c.cid]["seen"].append({"i": x + 1, "k": k, "dims": dims})
                else:
                    end["extra"] += 1
                    continue
            elif p.startswith("r.") and p[2:] in c.names:
                n = p[2:]
                e, x, _, _ = c.names[n]
                at = keys.index(n)
                (e["seen"] if e["op"] == "decl" else e["seen"]["members"]).append({"i": x if i == tab.get(n) else -1, "k": k, "dims": dims})
            else:
                end["extra"] += 1
                continue
            if at <= pos:
                end["ordered"] = False
            pos = at


TABLEPRE = '''
int gref=1;
int gfun(int a,int b,int c) {return a;}
void gfriend(int) {}
'''
MAINPRE = '''
void show(int c, const vector<pair<string,string> >& tab, const probe_t& t)
{
  printf("{\\"c\\":%d,\\"t\\":[",c);
  for (size_t i=0; i<tab.size(); ++i) printf("%s[\\"%s\\",\\"%s\\"]",i? ",":"",tab[i].first.c_str(),tab[i].second.c_str());
  printf("],\\"v\\":[");
  for (size_t i=0; i<t.v.size(); ++i)
    {
      printf("%s[\\"%s\\",\\"%s\\",\\"%s\\",[",i? ",":"",t.v[i].path.c_str(),t.v[i].kind.c_str(),t.v[i].id.c_str());
      for (size_t j=0; j<t.v[i].dims.size(); ++j) printf("%s%d",j? ",":"",int(t.v[i].dims[j]));
      printf("]]");
    }
  printf("]}\\n");
}
'''

PRELUDE = '''namespace classdesc_access {template <class T> struct access_probe;}
#ifndef CLASSDESC_ACCESS
namespace classdesc {template <class T> struct base_cast;}
#define CLASSDESC_ACCESS(type) template <class _CD_ARG_TYPE> friend struct classdesc::base_cast; friend struct classdesc_access::access_probe<type>
#endif
#include <string>
#include <vector>
#include <map>
#include <stdlib.h>
%s
const int gconst=5;
extern int gref;
int gfun(int,int,int);
void gfriend(int);
struct Part {int p, q; int meth(int) const {return 1;}};
class Aux {public: int u;};
enum Hue {red, green};
class Fwd;
template <class U> struct Fwdt;
template <class U> struct Traits {typedef U type;};
template <class U> struct Traits<std::vector<U> > {typedef int type;};
template <class U> struct Tb {U tb1; int tb2;};
struct Big {double big[3];};
namespace nsb {
  struct Base {int b1;};
  class Base2 {public: int b2; virtual ~Base2() {}};
  struct Outer {struct Inner {int in;}; Inner inner;};
  namespace inner {template <class U, int n> struct Tq {U q[n];};}
}
'''

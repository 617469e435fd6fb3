"""Shared by the checks about XML: what is written, and what is read."""
import json, os, random, re, struct
import xml.parsers.expat as expat
import vlib, universe as U

def xmlcd(u, extra=()):
    return [(["-nodef", "-respect_private"] + (["-onbase"] if u.onbase else []), ["xml_pack", "xml_unpack"] + list(extra)), (["-typeName", "-nodef"], [])]
INTS = ("short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long")
CHARS = ("char", "signed char", "unsigned char")
TEXTCHARS = [chr(c) for c in range(32, 127)] + list("\t\n") + ["&", "<", ">", '"', "'", "]", "]]>", "é", "漢", "\U0001F600", " ", "  ", "&amp;", "<!--", "-->", "#", "/", "=", "\n "]


def lex(t):
    return {"bool": "b", "float": "f", "double": "d"}.get(t["c"], "c" if t["c"] in CHARS else "i")


def ename(t):
    """the name of the elements of a container of these, independently of the library"""
    k = t["k"]
    if k == "map":
        return {"unordered_map": "unordered_map"}.get(t["c"], t["c"])
    if k == "pair":
        return "pair"
    if k in ("scalar", "const"):
        return {"unsigned": "int"}.get(t["c"], t["c"]).split(" ")[-1]
    if k == "arr":
        return "array"
    if k == "str":
        return "CDATA" if t.get("cdata") else "string"
    return re.sub("<.*", "", t["cpp"]).split("::")[-1]


def is_std_array(t):
    return t["k"] == "arr" and t.get("c") == "array"


def lexval(t, v):
    """a value as the specification has it: integers, truth values and enums in decimal"""
    k = t["k"]
    if k in ("scalar", "const", "enum"):
        if k == "enum":
            return str(struct.unpack("<i", bytes.fromhex(v))[0])
        x = lex(t)
        if x == "i":
            return str(int.from_bytes(bytes.fromhex(v), "little", signed=not t["c"].startswith("unsigned")))
        if x == "b":
            return "1" if v != "00" else "0"
        return v
    if k == "str":
        return v if v else "-"
    if k == "excl":
        return lexval(t["e"], v)
    if k == "class":
        return [lexval(u, w) for u, w in zip(t["m"], v)]
    if k in ("arr", "seq", "set", "ptr"):
        return [lexval(t["e"], w) for w in v]
    if k == "map":
        return [[lexval(t["a"], w[0]), lexval(t["b"], w[1])] for w in v]
    return [lexval(t["a"], v[0]), lexval(t["b"], v[1])]


def any_unordered(t):
    return U.has_unordered(t)


def basenames(t):
    """the elements holding the bases; their members are the class's own where there are none"""
    return t.get("bn") or ["" for _ in t["bases"]]


def tla(t):
    k = t["k"]
    r = {"k": k, "d": lexval(t, t["d"]), "u": str(t.get("c", "")).startswith("unordered"), "au": any_unordered(t)}
    if k in ("scalar", "const"):
        r["lex"] = lex(t)
    if k == "enum":
        r["syms"] = [[s.encode().hex(), str(v)] for s, v in t["vals"]]
    for f in ("e", "a", "b"):
        if f in t:
            r[f] = tla(t[f])
    if k == "arr":
        r["n"], r["std"] = t["n"], is_std_array(t)
        e = t["e"]
        while e["k"] == "arr" and not is_std_array(e) and not r["std"]:
            e = e["e"]
        r["en"] = ename(e)
    if k in ("seq", "set"):
        r["en"] = ename(t["e"])
    if k == "map":
        r["p"] = {"k": "pair", "a": r["a"], "b": r["b"], "d": [r["a"]["d"], r["b"]["d"]], "u": False, "au": r["b"]["au"]}
    if k == "class":
        r["m"] = [tla(u) for u in t["m"]]
        r["nm"] = basenames(t) + [n for n, _ in t["members"]]
        r["st"] = [u.get("st", 0) == 1 for u in t["m"]]
    return r


def text(rng, n):
    return "".join(rng.choice(TEXTCHARS) for _ in range(n))


def hx(s):
    return s.encode().hex() or "-"


def fit(rng, t, v):
    """restrict a random value to what XML can represent"""
    k = t["k"]
    if k == "scalar" and t["c"] in CHARS:
        return rng.choice([chr(c) for c in range(32, 127)] + list("\t\n\r &<>'\"")).encode().hex()
    if k == "str":
        n = rng.choice((0, 1, 2, 3, 6, 12, 40))
        return hx(text(rng, n) + (rng.choice(("", "\r", "\r\n")) if n and not t.get("cdata") else ""))
    if k == "excl":
        return fit(rng, t["e"], v)
    if k == "class":
        return [fit(rng, u, w) for u, w in zip(t["m"], v)]
    if k in ("arr", "seq", "set", "ptr"):
        return [fit(rng, t["e"], w) for w in v]
    if k == "map":
        return [[fit(rng, t["a"], w[0]), fit(rng, t["b"], w[1])] for w in v]
    if k == "pair":
        return [fit(rng, t["a"], v[0]), fit(rng, t["b"], v[1])]
    return v


def value(rng, t):
    return fit(rng, t, U.value(rng, t))


# ---------------------------------------------------------------- what a document says
FLOAT = re.compile(r"\s*[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?\s*$")


def readings(s):
    r = {"s": hx(s)}
    st = s.strip(" \t\n\r")
    if not st:
        r["w"] = 1
    if not s:
        r["e"] = 1
        return r
    if re.fullmatch(r"[+-]?\d+", st):
        r["i"] = str(int(st))
    x = None
    if FLOAT.match(s):
        x = float(st)
    elif st in ("INF", "-INF"):
        x = float(st.replace("INF", "inf"))
    if x is not None:
        try:
            r["f"] = struct.pack("<f", x).hex()
        except OverflowError:
            pass
        r["d"] = struct.pack("<d", x).hex()
    r["b"] = "1" if re.sub(r"\s", "", s).lower() in ("1", "t", "true", "y", "yes", "on") else "0"
    c = s[0] if not st else st
    if len(c) == 1 and ord(c) < 128:
        r["c"] = c.encode().hex()
    if re.fullmatch(r"\w+", st):
        r["y"] = hx(st)
    return r


def tree(data):
    """the element tree of a document, by an independent parser; None if it is not well formed"""
    p = expat.ParserCreate()
    p.buffer_text = True
    root, stack = [], []

    def start(n, a):
        e = {"n": n, "t": [], "c": []}
        (stack[-1]["c"] if stack else root).append(e)
        stack.append(e)

    def end(n):
        e = stack.pop()
        e["r"] = readings("".join(e.pop("t")))

    def chars(d):
        stack[-1]["t"].append(d)
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    try:
        p.Parse(data, True)
    except expat.ExpatError:
        return None
    return root[0]


BAD = {"n": "!not well formed", "r": {"s": "-"}, "c": []}


# ---------------------------------------------------------------- documents from elsewhere
def esc(rng, ch, quote=None):
    o = ord(ch)
    if ch == "\r":
        return rng.choice(("&#13;", "&#xD;", "&#x0d;"))
    named = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&apos;"}
    if ch in "&<" or ch == quote or (ch == ">" and rng.random() < 0.9) or (ch in "\n\t" and quote):
        return rng.choice((named[ch], "&#%d;" % o, "&#x%x;" % o)) if ch in named else "&#%d;" % o
    if o < 128 and rng.random() < 0.06:
        return rng.choice(("&#%d;" % o, "&#%04d;" % o, "&#x%X;" % o, "&#x%02x;" % o))
    if ch in named and rng.random() < 0.5:
        return named[ch]
    return ch


COMMENTS = ("<!---->", "<!-- a -->", "<!-- <b>\"' & ' -->", "<!-- > -->", "<!--\n<x>-->", "<!-- - -->", "<!--<!- -->")
PIS = ("<?pi?>", "<?pi a=\"b\" > ?>", "<?x <y/> ?>", "<?p ' ?>", "<?p ??>")


def noise(rng, p=0.08):
    return rng.choice(COMMENTS + PIS) if rng.random() < p else ""


def content(rng, s):
    """character data with the given meaning"""
    out, i = [], 0
    while i < len(s):
        if rng.random() < 0.1:
            j = min(len(s), i + rng.randrange(1, 8))
            seg = s[i:j]
            if "]]>" not in seg and "\r" not in seg:
                out.append("<![CDATA[" + seg + "]]>")
                i = j
                continue
        out.append("&gt;" if s[i] == ">" and i and s[i - 1] == "]" else esc(rng, s[i]))
        out.append(noise(rng, 0.03))
        i += 1
    if rng.random() < 0.05:
        out.append("<![CDATA[]]>")
    return "".join(out)


def attrs(rng, names, p=0.15):
    out, seen = "", set()
    while rng.random() < p:
        n = rng.choice(list(names) + ["a", "b.c", "xml:lang", "type", "_x-1"])
        if n in seen:
            continue
        seen.add(n)
        q = rng.choice("\"'")
        v = "".join(esc(rng, c, q) for c in text(rng, rng.choice((0, 1, 4, 9))))
        out += rng.choice((" ", "\n", "  ", "\t")) + n + rng.choice(("=", " = ", "= ", " =")) + q + v + q
    return out


def elem(rng, n, inner, names=()):
    a = attrs(rng, names) + rng.choice(("", "", "", " ", "\n"))
    if not inner and rng.random() < 0.6:
        return "<%s%s/>" % (n, a)
    return "<%s%s>%s</%s%s>" % (n, a, inner, n, rng.choice(("", "", "", " ", "\n")))


def scalar_text(rng, t, v):
    """a way of writing the (lexical) value"""
    x = lex(t)
    if x == "c":
        c = bytes.fromhex(v).decode()
        s = c
        return s if c.isspace() or rng.random() < 0.7 else rng.choice((" ", "\n", "")) + c + rng.choice((" ", ""))
    if x == "b":
        s = rng.choice(("1", "t", "true", "TRUE", "y", "yes", "Yes", "on")) if v == "1" else rng.choice(("0", "false", "no", "off", "False", "n"))
    elif x == "i":
        s = v
        if rng.random() < 0.15:
            s = ("-" + rng.choice(("0", "000")) + v[1:]) if v[0] == "-" else rng.choice(("0", "+", "00")) + v
    else:
        y = struct.unpack("<" + x, bytes.fromhex(v))[0]
        s = "INF" if y == float("inf") else "-INF" if y == float("-inf") else repr(y) if x == "d" or rng.random() < 0.5 else "%.17g" % y
        if rng.random() < 0.1 and "e" in s:
            s = s.upper()
    return rng.choice(("", "", "", " ", "\n\t")) + s + rng.choice(("", "", "", " ", "\n"))


def flat(t, v):
    if t["k"] == "arr" and not is_std_array(t):
        return [y for w in v for y in flat(t["e"], w)]
    return [(t, v)]


def gen(rng, n, t, v, depth=0, names=()):
    """an element called n meaning v (hex form), decorated and distorted at random; may leave things out"""
    k = t["k"]
    p = 0.06
    if k in ("scalar", "const"):
        if rng.random() < 0.02 and depth and k == "scalar" and not names == "set":
            return elem(rng, n, "")
        return elem(rng, n, content(rng, scalar_text(rng, t, lexval(t, v))))
    if k == "str":
        s = "" if v == "-" else bytes.fromhex(v).decode()
        inner = content(rng, s)
        if rng.random() < 0.03:
            inner += "<u>x</u>"
        return elem(rng, n, inner)
    if k == "enum":
        syms = [s for s, x in t["vals"] if struct.pack("<i", x).hex() == v]
        return elem(rng, n, rng.choice(("", " ", "\n")) + content(rng, rng.choice(syms)) + rng.choice(("", " ")))
    if k == "ptr":
        return gen(rng, n, t["e"], v[0], depth, names) if v else ""
    kids, mem = [], []
    if k == "class":
        def walk(c, w):
            i = 0
            for b, m in zip(c["bases"], basenames(c)):
                if m:
                    kids.append(gen(rng, m, b, w[i], depth + 1))
                else:
                    walk(b, w[i])
                i += 1
            for (m, u) in c["members"]:
                mem.append(m)
                x = w[i]
                i += 1
                if u["k"] == "const":
                    continue
                if u["k"] == "excl":
                    if rng.random() < 0.3:
                        kids.append(gen(rng, m, u["e"], x, depth + 1))
                    continue
                if u["k"] == "ptr" and not x:
                    continue
                if rng.random() < 0.12:
                    continue
                kids.append(gen(rng, m, u, x, depth + 1))
                if rng.random() < p:
                    kids.append(gen(rng, m, u, order(u, fit(rng, u, U.value(rng, u))), depth + 1))
        walk(t, v)
    elif k == "pair":
        kids = [gen(rng, "first", t["a"], v[0], depth + 1), gen(rng, "second", t["b"], v[1], depth + 1)]
    elif k == "map":
        pt = {"k": "pair", "a": t["a"], "b": t["b"]}
        kids = [gen(rng, "pair", pt, w, depth + 1) for w in v]
        if any(a is None for a in kids):
            kids = []
    elif k == "arr":
        fl = flat(t, v) if not is_std_array(t) else [(t["e"], w) for w in v]
        cut = rng.choice((len(fl), len(fl), len(fl), rng.randrange(len(fl) + 1)))
        kids = [gen(rng, ename(u), u, w, depth + 1) for u, w in fl[:cut]]
        if cut == len(fl) and rng.random() < 0.1 and fl:
            kids.append(gen(rng, ename(fl[0][0]), *fl[0], depth=depth + 1))
    else:
        kids = [gen(rng, ename(t["e"]), t["e"], w, depth + 1, names="set" if k == "set" else ()) for w in v]
    if k == "class" and rng.random() < 0.3 and len(set(mem)) == len(mem):
        # order between different members does not matter
        rng.shuffle(kids)
    out = []
    for x in kids:
        if rng.random() < p:
            out.append(elem(rng, rng.choice(("unknown", "x.y", "u-1", "root")), rng.choice(("", "1", "<a>1</a>", "text <!-- c --> more", "<root><a/></root>"))))
        out.append(x)
        if rng.random() < 0.3:
            out.append(rng.choice(("\n", "  ", "\n  ", "\t")))
        out.append(noise(rng))
        if k == "class" and rng.random() < 0.02:
            out.append(rng.choice(("stray", "&lt;m&gt;", "<![CDATA[<a>]]>", "=", "\"", "'", "/")))
    return elem(rng, n, noise(rng) + "".join(out), mem)


def order(t, v):
    """sets and maps as the containers keep them, on lexical grounds"""
    k = t["k"]

    def key(u, w):
        if u["k"] == "str":
            return b"" if w == "-" else bytes.fromhex(w)
        return int(lexval(u, w))
    if k == "class":
        return [order(u, w) for u, w in zip(t["m"], v)]
    if k == "excl":
        return v
    if k in ("arr", "seq", "ptr"):
        return [order(t["e"], w) for w in v]
    if k == "pair":
        return [order(t["a"], v[0]), order(t["b"], v[1])]
    if k in ("set", "map"):
        f = (lambda w: key(t["e"], w)) if k == "set" else (lambda w: key(t["a"], w[0]))
        r = sorted(v, key=f)
        if "multi" not in t["c"]:
            r = [w for i, w in enumerate(r) if i == 0 or f(w) != f(r[i - 1])]
        return r if k == "set" else [[w[0], order(t["b"], w[1])] for w in r]
    return v


def document(rng, t, v, n="root"):
    pre = rng.choice(("", "", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0'?>\n<!DOCTYPE root>\n", "<!-- c -->\n",
                      "<!DOCTYPE root [<!ELEMENT root ANY>]>", "\n <!-- \" -->"))
    d = pre + gen(rng, n, t, v)
    end = rng.choice(("", "\n", "<!-- end -->", "\n \n"))
    return d, d + end


def damages(rng, body, limit=60):
    """variants of a document whose markup is not balanced; all of them are wrong"""
    out = []
    # where the root element begins
    m = re.search(r"<root", body)
    start = m.start() + 1
    pos = list(range(start, len(body)))
    for i in (pos if len(pos) < limit else sorted(rng.sample(pos, limit))):
        out.append(body[:i])
    ends = [m for m in re.finditer(r"</([^\s>]+)(\s*)>", body) if outside(body, m.start())]
    for m in rng.sample(ends, min(8, len(ends))):
        n = m.group(1)
        for w in (n + "x", "x" + n, n[:-1] if len(n) > 1 else n + n, n[:-1] + ("y" if n[-1] != "y" else "z"), n.swapcase() if n.swapcase() != n else n + "_"):
            out.append(body[:m.start(1)] + w + body[m.end(1):])
    return out


def outside(body, at):
    """not inside a comment, CDATA section, processing instruction or attribute"""
    for m in re.finditer(r"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>|<[^!?/](?:[^<>\"']|\"[^\"]*\"|'[^']*')*>", body, re.S):
        if m.start() < at < m.end():
            return False
    return True


# ---------------------------------------------------------------- driving
def line(e):
    o = e["op"]
    if o == "restart":
        return o
    if o == "slot":
        return "slot %d" % (e["t"] - 1)
    if o == "set":
        return "set %d %s" % (e["s"] - 1, json.dumps(e["v"], separators=(",", ":")))
    if o == "write":
        return "write %d %s %d %d" % (e["s"] - 1, e["n"], e["pretty"], e["schema"])
    if o == "load":
        return "load " + e["text"]
    if o == "read":
        return "read %d %d %s %d %d" % (e["s"] - 1, e["k"] - 1, e["n"], e["strict"], e["how"])
    if o == "readx":
        return "readx %d %s %s %d %d" % (e["s"] - 1, e["text"], e["n"], e["strict"], e["how"])
    if o == "content":
        return "content %d %s" % (e["how"], e["text"])
    if o == "parse":
        return "damage " + e["text"]
    if o == "damage":
        return "damage " + " ".join(e["texts"])
    raise KeyError(o)


def merger(roots):
    def merge(e, o):
        o = dict(o)
        if "val" in o:
            o["val"] = lexval(roots[e["ty"]], o["val"])
        if "xml" in o:
            data = bytes.fromhex(o.pop("xml"))
            o["tree"] = tree(data) or BAD
        r = {"obs": o}
        for k in ("text", "texts", "v"):     # not for the specification
            if k in e:
                r[k] = 0
        return r
    return merge


def table(ctx, roots, name):
    path = os.path.join(ctx.work, name)
    with open(path, "w") as f:
        for t in roots:
            f.write(json.dumps(tla(t)) + "\n")
    return path


def xml_trace(rng, roots, ops, length, pick=None, cov=None):
    tys = [rng.choice(pick or range(len(roots)))]
    if rng.random() < 0.3:
        tys.append(rng.choice(range(len(roots))))
    slots = [t for t in tys for _ in range(2)]
    tr = [{"op": "slot", "t": t + 1, "ty": t} for t in slots]
    # a null character is nothing that XML can represent
    tr += [{"op": "set", "s": i + 1, "v": value(rng, roots[t]), "ty": t} for i, t in enumerate(slots) if has_char(roots[t]) or rng.random() < 0.5]
    docs = []
    for _ in range(length):
        op = rng.choices([o for o, _ in ops], [w for _, w in ops])[0]
        s = rng.randrange(len(slots))
        t = roots[slots[s]]
        if op == "set":
            tr.append({"op": "set", "s": s + 1, "v": value(rng, t), "ty": slots[s]})
        elif op == "write":
            n = rng.choice(("root", "root", "top", "some-name"))
            tr.append({"op": "write", "s": s + 1, "n": n, "pretty": rng.randrange(2), "schema": int(rng.random() < 0.2), "ty": slots[s]})
            docs.append((slots[s], n))
        elif op == "read":
            ds = [i for i, (u, _) in enumerate(docs) if u == slots[s]]
            if ds:
                k = rng.choice(ds)
                tr.append({"op": "read", "s": s + 1, "k": k + 1, "n": docs[k][1], "strict": int(rng.random() < 0.15), "how": rng.randrange(4), "ty": slots[s]})
        elif op in ("load", "damage"):
            v = order(t, value(rng, t))
            body, full = document(rng, t, v)
            x = tree(full.encode())
            if x is None:
                raise vlib.CheckError("generated document is not well formed: " + repr(full))
            if not ok_tree(t, x):
                continue
            if op == "load":
                tr.append({"op": "load", "t": slots[s] + 1, "text": full.encode().hex(), "tree": x})
                docs.append((slots[s], "root"))
            else:
                bad = damages(rng, body, 40)
                if any(tree(b.encode()) is not None for b in bad):
                    raise vlib.CheckError("a damaged document is well formed: " + body)
                tr.append({"op": "damage", "texts": [b.encode().hex() for b in bad]})
                if cov is not None:
                    cov["damaged documents"] = cov.get("damaged documents", 0) + len(bad)
    return tr


def has_char(t):
    return t.get("c") in CHARS or any(has_char(t[f]) for f in ("e", "a", "b") if f in t) or any(has_char(u) for u in t.get("m", []))


def ok_tree(t, x):
    """the document means something for every member it mentions (not so for some distortions)"""
    k = t["k"]
    if k == "scalar":
        return lex(t) in x["r"] or "e" in x["r"]
    if k == "enum":
        return "y" in x["r"] and x["r"]["y"] in [s.encode().hex() for s, _ in t["vals"]] or "e" in x["r"]
    if k in ("str", "const", "excl"):
        return True
    if k == "ptr":
        return ok_tree(t["e"], x)
    if k == "class":
        ns = basenames(t) + [n for n, _ in t["members"]]
        return all(ok_tree(u, x) if n == "" else all(ok_tree(u, y) for y in x["c"] if y["n"] == n) for n, u in zip(ns, t["m"]))
    if k == "pair":
        return all(ok_tree(t["a"], y) for y in x["c"] if y["n"] == "first") and all(ok_tree(t["b"], y) for y in x["c"] if y["n"] == "second")
    if k == "map":
        # entries without a key would be equal
        return all(ok_tree({"k": "pair", "a": t["a"], "b": t["b"]}, y) and any(z["n"] == "first" and "e" not in z["r"] or z["n"] == "first" and t["a"]["k"] == "str" for z in y["c"]) for y in x["c"] if y["n"] == "pair")
    e = t["e"]
    if k == "arr" and not is_std_array(t):
        while e["k"] == "arr" and not is_std_array(e):
            e = e["e"]
    return all(ok_tree(e, y) for y in x["c"] if y["n"] == ename(e))


def fixed_roots(std):
    i, s, d = U.S("int"), U.STR(), U.S("double")
    r = [i, U.S("bool"), d, U.S("float"), U.S("char"), U.S("signed char"), U.S("unsigned char"), U.S("unsigned long long"), s, CDATA(),
         U.SEQ("vector", i), U.SEQ("vector", U.S("bool")), U.SEQ("deque", d), U.SEQ("list", s), U.SET("set", s), U.SET("multiset", i), U.MAP("map", s, d), U.MAP("multimap", i, s), U.PAIR(i, s),
         U.SEQ("vector", U.SEQ("vector", s)), U.MAP("map", i, U.SEQ("list", i)), U.SEQ("vector", U.PAIR(U.S("char"), i)), U.SEQ("vector", CDATA()), U.MAP("map", s, U.MAP("map", i, U.S("bool")))]
    if std != "98":
        r += [U.SET("unordered_set", s), U.SET("unordered_multiset", i), U.MAP("unordered_map", s, i), U.STDARR(i, 3), U.STDARR(s, 2)]
    return r


def CDATA():
    t = U.STR()
    t.update(cpp="classdesc::CDATA", cdata=1)
    return t


def build(ctx, n, **kw):
    ctx.cd
    jobs = [(i, std, random.Random(ctx.rng.random())) for i in range(n) for std in (("17", "98") if i % 2 == 0 else ("17",))]

    def one(job):
        i, std, r = job
        u = U.Universe(r, nclasses=7, cpp11=std != "98", xml=True, **kw)
        roots = u.roots(fixed_roots(std))
        exe = U.build_driver(ctx, "x%d_%s" % (i, std), u, roots, "xmldoc.cc", "c++" + std, xmlcd(u), None)
        return exe, roots, table(ctx, roots, "xtypes%d_%s" % (i, std)), u
    return vlib.parallel(one, jobs)


# ---------------------------------------------------------------- small models
def small(onbase=False):
    """the classes of XmlMC"""
    i, s = U.S("int"), U.STR()
    u = U.Universe.__new__(U.Universe)
    u.cpp11, u.ns, u.enums, u.onbase = True, "", [], False
    b = U.CLASS("B", [], [("a", i), ("s", s)])
    m = U.CLASS("M", [], [("a", i), ("s", s), ("v", U.SEQ("vector", i)), ("p", U.PTR("shared", i)), ("b", b), ("r", U.ARR(i, 2)), ("x", U.EXCL(i)), ("m", U.MAP("multimap", i, s))])
    u.classes = [b, m]
    u.body = ["struct B {int a; std::string s; B(): a(0) {}};",
              "struct M {int a; std::string s; std::vector<int> v; classdesc::shared_ptr<int> p; B b; int r[2]; classdesc::Exclude<int> x; std::multimap<int,std::string> m; M(): a(0), r(), x(0) {}};"]
    return u, [m]


def unlex(t, v):
    k = t["k"]
    if k == "scalar":
        return int(v).to_bytes(t["w"], "little", signed=True).hex()
    if k == "str":
        return v
    if k == "excl":
        return unlex(t["e"], v)
    if k == "class":
        return [unlex(u, w) for u, w in zip(t["m"], v)]
    if k in ("arr", "seq", "ptr"):
        return [unlex(t["e"], w) for w in v]
    return [[unlex(t["a"], a), unlex(t["b"], b)] for a, b in v]


def render(rng, x):
    """any text for a tree"""
    inner = "".join(render(rng, y) + (rng.choice(COMMENTS + PIS + ("\n", " ")) if rng.random() < 0.15 else "") for y in x["c"]) if x["c"] else content(rng, "" if x["r"]["s"] == "-" else bytes.fromhex(x["r"]["s"]).decode())
    return elem(rng, x["n"], inner, ("a", "s", "v", "b", "int"))

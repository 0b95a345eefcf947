"""Rewritings of every message class at once, and a few of one file, that keep the behaviour; and some bugs."""
import re
CASES = []
MSG = "glob:/src/main/java/.*/messages/.*\\.java"


def bug(name, bad, *edits):
    CASES.append(dict(name=name, bad=bad.split(","), edits=edits))


def same(name, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


def close(s, i):
    """position of the brace that closes the one at i"""
    d = 0
    j = i
    while True:
        c = s[j]
        if c in "\"'":
            k = j + 1
            while s[k] != c:
                k += 2 if s[k] == "\\" else 1
            j = k
        elif c == "{": d += 1
        elif c == "}":
            d -= 1
            if d == 0: return j
        j += 1


def stmts(b):
    """top-level statements of a block"""
    out, d, p, last = [], 0, 0, 0
    i = 0
    while i < len(b):
        c = b[i]
        if c in "\"'":
            k = i + 1
            while b[k] != c:
                k += 2 if b[k] == "\\" else 1
            i = k
        elif c == "{": d += 1
        elif c == "(": p += 1
        elif c == ")": p -= 1
        elif c == "}":
            d -= 1
            if d == 0 and not re.match(r"\s*(else|catch|finally)\b", b[i + 1:]):
                out.append(b[last:i + 1]); last = i + 1
        elif c == ";" and d == 0 and p == 0:
            out.append(b[last:i + 1]); last = i + 1
        i += 1
    return out


def classes(s, fn):
    """applies fn(class name, fields [(type, name)], text of the class) to every message class, inner ones first"""
    i = 0
    spots = [m.start() for m in re.finditer(r"class (\w+) implements BinaryCodec \{", s)]
    for at in reversed(spots):
        m = re.match(r"class (\w+) implements BinaryCodec \{", s[at:])
        o = at + m.end() - 1
        e = close(s, o)
        t = s[at:e + 1]
        ind = len(re.search(r"\n( *)[^\n]*$", s[:at] or "\n").group(1)) if "\n" in s[:at] else 0
        fl = re.findall(r"(?m)^ {%d}private ([\w<>\[\]]+) (\w+);" % (ind + 2), t)
        s = s[:at] + fn(m.group(1), fl, t) + s[e + 1:]
    return s


def meth(t, sig, fn, add=""):
    """rewrites the body of the class's own method (the first one: inner classes come later)"""
    i = t.find(sig)
    if i < 0: return t
    o = t.index("{", i)
    e = close(t, o)
    r = fn(t[o + 1:e])
    if r is None: return t
    if isinstance(r, tuple): r, add = r
    return t[:o + 1] + r + t[e:e + 1] + add + t[e + 1:]


ENC, DEC, EQ, HASH, STR = "void encode(ByteBuf", "void decode(ByteBuf", "boolean equals(Object", "int hashCode()", "String toString()"


def allc(name, fn):
    same(name, (MSG, None, lambda s: classes(s, fn)))


def alls(name, fn):
    same(name, (MSG, None, fn))


# ---------------------------------------------------------------- methods taken apart
def split(sig, kind):
    def f(cn, fl, t):
        def g(b):
            l = stmts(b)
            k = len(l) // 2
            while 0 < k < len(l):
                decl = re.findall(r"(?:^|\n)\s*(?:int|long|byte\[\]|ChecksumService<[^>]*>) (\w+)\s*=", "".join(l[:k]))
                if any(re.search(r"\b%s\b" % d, "".join(l[k:])) for d in decl): k += 1
                else: break
            if k >= len(l) or k == 0: return None
            return ("\n    %sHead(byteBuf);\n    %sTail(byteBuf);\n  " % (kind, kind),
                    "\n\n  private void %sHead(ByteBuf byteBuf) {%s\n  }\n\n  private void %sTail(ByteBuf byteBuf) {%s\n  }\n" % (kind, "".join(l[:k]), kind, "".join(l[k:])))
        return meth(t, sig, g)
    return f


allc("all-split-encode", split(ENC, "enc"))
allc("all-split-decode", split(DEC, "dec"))
allc("all-split-both", lambda cn, fl, t: split(DEC, "dec")(cn, fl, split(ENC, "enc")(cn, fl, t)))


def each(sig, kind):
    """one private method per statement"""
    def f(cn, fl, t):
        def g(b):
            l = stmts(b)
            if re.search(r"(?:^|\n) {4,6}(int|long|ChecksumService\S*( \w+,?)?>?) \w+ ?=", b): return None
            return ("".join("\n    %s%d(byteBuf);" % (kind, i) for i in range(len(l))) + "\n  ",
                    "".join("\n\n  private void %s%d(ByteBuf buf) {%s\n  }" % (kind, i, re.sub(r"\bbyteBuf\b", "buf", x)) for i, x in enumerate(l)))
        return meth(t, sig, g)
    return f


allc("all-each-encode", each(ENC, "enc"))
allc("all-each-decode", each(DEC, "dec"))


# ---------------------------------------------------------------- locals, getters, setters
def enc_locals(cn, fl, t):
    if "ChecksumService" in t or "BodyLen" in t: return t
    def g(b):
        d = ""
        for ty, n in fl:
            if re.search(r"this\.%s\b" % n, b):
                d += "\n    final %s %s_ = this.%s;" % (ty, n, n)
                b = re.sub(r"this\.%s\b" % n, n + "_", b)
        return d + b
    return meth(t, ENC, g)


allc("all-encode-locals", enc_locals)


def dec_locals(cn, fl, t):
    def g(b):
        d, e = "", ""
        for ty, n in fl:
            if re.search(r"this\.%s\b" % n, b):
                d += "\n    %s %sIn = this.%s;" % (ty, n, n)
                b = re.sub(r"this\.%s\b" % n, n + "In", b)
                e = "\n    this.%s = %sIn;" % (n, n) + e
        return d + b.rstrip() + e + "\n  "
    return meth(t, DEC, g)


allc("all-decode-locals", dec_locals)


def cap(n):
    return n[0].upper() + n[1:]


def getters(cn, fl, t):
    def g(b):
        for ty, n in fl:
            b = re.sub(r"this\.%s\b(?! =[^=])" % n, "get%s()" % cap(n), b)
        return b
    return meth(t, ENC, g)


def setters(cn, fl, t):
    def g(b):
        for ty, n in fl:
            b = re.sub(r"this\.%s =\s*([^;]*);" % n, lambda m: "set%s(%s);" % (cap(n), m.group(1)), b)
            b = re.sub(r"this\.%s\b" % n, "get%s()" % cap(n), b)
        return b
    return meth(t, DEC, g)


allc("all-encode-getters", getters)
allc("all-decode-setters", setters)
alls("all-no-this", lambda s: re.sub(r"(void (?:encode|decode)\(ByteBuf byteBuf\) \{)", r"\1", re.sub(r"this\.(\w+)(?= *= *(?:byteBuf|read|new|null))", r"\1", s)))
alls("all-param-name", lambda s: re.sub(r"\bbyteBuf\b", "out", s))

# ---------------------------------------------------------------- conditions
GUARD = r"if \(null == ([\w.]+)\s*\|\| [\w.]+\.size\(\) == 0\) \{(\s*[^;{}]*;\s*)\} else \{"


def invert(s):
    while True:
        m = re.search(GUARD, s)
        if not m: return s
        o = m.end() - 1
        e = close(s, o)
        s = s[:m.start()] + "if (%s != null && !%s.isEmpty()) {" % (m.group(1), m.group(1)) + s[o + 1:e] + "} else {" + m.group(2) + s[e:]


alls("all-invert-guards", invert)
alls("all-isempty", lambda s: s.replace(".size() == 0", ".isEmpty()"))
alls("all-size-below-one", lambda s: s.replace(".size() == 0", ".size() < 1"))
alls("all-yoda", lambda s: re.sub(r"null == ([\w.]+)", r"\1 == null", s))
alls("all-objects-isnull", lambda s: re.sub(r"null == (this\.[\w.]+)", r"Objects.isNull(\1)", s))
alls("all-positive-flip", lambda s: re.sub(r"if \((\w+) > 0\)", r"if (0 < \1)", s))
alls("all-size-not-zero", lambda s: re.sub(r"if \((\w+Size) > 0\)", r"if (\1 != 0)", s))


def zero_first(s):
    while True:
        m = re.search(r"if \((\w+(?:Size|Len)) > 0\) \{", s)
        if not m: return s
        o = m.end() - 1
        e = close(s, o)
        m2 = re.match(r"\s*else \{", s[e + 1:])
        if not m2:
            s = s[:m.start()] + "if (%s >= 1) {" % m.group(1) + s[m.end():]
            continue
        o2 = e + m2.end()
        e2 = close(s, o2)
        s = s[:m.start()] + "if (%s == 0) {" % m.group(1) + s[o2 + 1:e2] + "} else {" + s[o + 1:e] + "}" + s[e2 + 1:]


alls("all-zero-first", zero_first)


def early(cn, fl, t):
    """the body of a group in a method of its own that returns early"""
    k = [0]
    extra = []
    def g(b):
        while True:
            m = re.search(GUARD, b)
            if not m: return b
            o = m.end() - 1
            e = close(b, o)
            k[0] += 1
            extra.append("\n\n  private void group%d(ByteBuf byteBuf) {\n    if (%s == null || %s.isEmpty()) {%s return;\n    }%s  }" % (k[0], m.group(1), m.group(1), m.group(2), b[o + 1:e]))
            b = b[:m.start()] + "group%d(byteBuf);" % k[0] + b[e + 1:]
    t = meth(t, ENC, lambda b: (g(b), "".join(extra)))
    return t


allc("all-group-methods", early)

# ---------------------------------------------------------------- loops
FORI = r"for \(int i = 0; i < ([\w.]+)\.size\(\); i\+\+\) \{"


def loops(how):
    def f(cn, fl, t):
        ty = {n: re.match(r"List<(\w+)>", x).group(1) for x, n in fl if x.startswith("List<")}
        def g(b):
            while True:
                m = re.search(FORI, b)
                if not m: return b
                o = m.end() - 1
                e = close(b, o)
                l = m.group(1)
                n = l.split(".")[-1]
                x = b[o + 1:e].replace(l + ".get(i)", "item")
                E = ty[n]
                if how == "each": r = "for (%s item : %s) {%s}" % (E, l, x)
                if how == "iter": r = "for (java.util.Iterator<%s> it = %s.iterator(); it.hasNext(); ) {\n %s item = it.next();%s}" % (E, l, E, x)
                if how == "while": r = "{ int at = 0;\n while (at < %s.size()) {\n %s item = %s.get(at++);%s} }" % (l, E, l, x)
                if how == "lambda": r = "%s.forEach(item -> {%s});" % (l, x)
                if how == "n": r = "for (int k = 0, n = %s.size(); k != n; ++k) {\n %s item = %s.get(k);%s}" % (l, E, l, x)
                if how == "down": r = "for (int left = %s.size(); left > 0; left--) {\n %s item = %s.get(%s.size() - left);%s}" % (l, E, l, l, x)
                if how == "array": r = "for (Object o : %s.toArray()) {\n %s item = (%s) o;%s}" % (l, E, E, x)
                if how == "stream": r = "%s.stream().forEachOrdered(item -> {%s});" % (l, x)
                if how == "do": r = "{ int at = 0;\n do {\n %s item = %s.get(at);%s\n at++; } while (at < %s.size()); }" % (E, l, x, l)
                if how == "range": r = "java.util.stream.IntStream.range(0, %s.size()).forEach(k -> {\n %s item = %s.get(k);%s});" % (l, E, l, x)
                if how == "listit": r = "java.util.ListIterator<%s> it_%s = %s.listIterator();\n while (it_%s.hasNext()) {\n %s item = it_%s.next();%s}" % (E, n, l, n, E, n, x)
                b = b[:m.start()] + r + b[e + 1:]
        return meth(t, ENC, g)
    return f


for h in ("each", "iter", "while", "lambda", "n", "down", "array", "stream", "do", "range", "listit"): allc("all-encode-" + h, loops(h))

FORD = r"for \(int i = 0; i < (\w+Size); i\+\+\) \{"


def dloops(how):
    def f(s):
        while True:
            m = re.search(FORD, s)
            if not m: return s
            o = m.end() - 1
            e = close(s, o)
            n, x = m.group(1), s[o + 1:e]
            if how == "down": r = "for (int left = %s; left > 0; left--) {%s}" % (n, x)
            if how == "while": r = "{ int done = 0;\n while (done != %s) {%s done++;\n } }" % (n, x)
            if how == "do": r = "{ int done = 0;\n do {%s} while (++done < %s); }" % (x, n)
            if how == "one": r = "for (int i_ = 1; i_ <= %s; i_++) {%s}" % (n, x)
            if how == "dec": r = "{ int rest = %s;\n while (rest-- > 0) {%s} }" % (n, x)
            if how == "break": r = "for (int i_ = 0; ; i_++) {\n if (i_ >= %s) {\n break;\n }%s}" % (n, x)
            if how == "long": r = "for (long i_ = 0L; i_ < %s; i_ += 1) {%s}" % (n, x)
            s = s[:m.start()] + r + s[e + 1:]
    return f


for h in ("down", "while", "do", "one", "dec", "break", "long"): alls("all-decode-" + h, dloops(h))


def dec_list_local(s):
    """the group is collected in a local list and stored at the end"""
    while True:
        m = re.search(r"this\.(\w+) = new ArrayList<>\(\);", s)
        if not m: return s
        n = m.group(1)
        # end of the enclosing block
        i = s.rindex("{", 0, m.start())
        e = close(s, i)
        x = s[m.end():e].replace("this.%s.add(" % n, "%sRead.add(" % n)
        s = s[:m.start()] + "LISTTYPE_%s %sRead = new ArrayList<>( );" % (n, n) + x + "this.%s = %sRead;\n" % (n, n) + s[e:]


def dec_list_typed(cn, fl, t):
    ty = {n: x for x, n in fl}
    t = dec_list_local(t) if "this." in t else t
    for n, x in ty.items(): t = t.replace("LISTTYPE_%s " % n, x + " ")
    return t


allc("all-decode-list-local", dec_list_typed)
alls("all-decode-presized", lambda s: re.sub(r"new ArrayList<>\(\)", "new ArrayList<>(8)", s))
alls("all-decode-linked", lambda s: re.sub(r"new ArrayList<>\(\)", "new java.util.LinkedList<>()", s))


def guardless(s):
    """the list is made only when the first element arrives: the else branch first"""
    while True:
        m = re.search(r"if \((\w+Size) > 0\) \{\s*this\.(\w+) = new ArrayList<>\(\);", s)
        if not m: return s
        o = s.index("{", m.start())
        e = close(s, o)
        m2 = re.match(r"\s*else \{", s[e + 1:])
        e2 = close(s, e + m2.end())
        s = s[:m.start()] + "this.%s = %s == 0 ? null : new ArrayList<>( );" % (m.group(2), m.group(1)) + s[m.end():e] + s[e2 + 1:]


alls("all-decode-guardless", guardless)


def count_local(s):
    """the number of elements in a local, one path for empty and filled lists"""
    def one(m0):
        pass
    while True:
        m = re.search(GUARD, s)
        if not m: return s
        o = m.end() - 1
        e = close(s, o)
        l = m.group(1)
        n = l.split(".")[-1] + "Count"
        x = s[o + 1:e]
        x = re.sub(r"%s\.size\(\)" % re.escape(l), n, x)
        s = s[:m.start()] + "int %s = %s == null ? 0 : %s.size();\n" % (n, l, l) + x.strip() + s[e + 1:]


alls("all-count-local", count_local)


# ---------------------------------------------------------------- text and numbers
alls("all-fixed-explicit", lambda s: re.sub(r"writeFixedString\(byteBuf, (this\.\w+), (\d+)\)", r"writeFixedString(byteBuf, \1, \2, ' ', false)", re.sub(r"readFixedString\(byteBuf, (\d+)\)", r"readFixedString(byteBuf, \1, ' ', false)", s)))


def consts(cn, fl, t):
    c = {}
    def k(n, w):
        nm = re.sub(r"(?<!^)([A-Z])", r"_\1", n).upper() + "_LEN"
        c[nm] = w
        return nm
    t = re.sub(r"writeFixedString\(byteBuf, this\.(\w+), (\d+)\)", lambda m: "writeFixedString(byteBuf, this.%s, %s)" % (m.group(1), k(m.group(1), m.group(2))), t)
    t = re.sub(r"this\.(\w+) = readFixedString\(byteBuf, (\d+)\)", lambda m: "this.%s = readFixedString(byteBuf, %s)" % (m.group(1), k(m.group(1), m.group(2))), t)
    o = t.index("{")
    return t[:o + 1] + "".join("\n  private static final int %s = %s;" % x for x in c.items()) + t[o + 1:]


alls("all-width-constants", lambda s: classes(s, consts) if s.count("implements BinaryCodec {") == 1 else s)


def helpers(cn, fl, t):
    def g(b):
        b = re.sub(r"writeFixedString\(byteBuf, (this\.\w+), (\d+)\)", r"put(byteBuf, \1, \2)", b)
        return (b, "\n\n  private void put(ByteBuf to, String text, int width) {\n    writeFixedString(to, text, width);\n  }\n\n  private String take(ByteBuf from, int width) {\n    return readFixedString(from, width);\n  }")
    t = meth(t, ENC, g)
    return meth(t, DEC, lambda b: re.sub(r"readFixedString\(byteBuf, (\d+)\)", r"take(byteBuf, \1)", b))


allc("all-text-helpers", helpers)


def chain(cn, fl, t):
    """consecutive writes of numbers chained"""
    def g(b):
        return re.sub(r"(?<=\n    )byteBuf\.(write\w+\([^;{}]*\));\s*byteBuf\.(write\w+\([^;{}]*\));", r"byteBuf.\1.\2;", b)
    return meth(t, ENC, g)


allc("all-chained", chain)
alls("all-try-finally", lambda s: classes(s, lambda cn, fl, t: meth(meth(t, ENC, lambda b: "\n    try {" + b + "} finally {\n      ;\n    }\n  "), DEC, lambda b: "\n    try {" + b + "} catch (IndexOutOfBoundsException e) {\n      throw e;\n    }\n  ")))
alls("all-order-via-get", lambda s: re.sub(r"byteBuf\.readUnsignedShortLE\(\)", "(byteBuf.readShortLE() & 0xffff)", re.sub(r"byteBuf\.readUnsignedShort\(\)", "(byteBuf.readShort() & 0xFFFF)", s)))
alls("all-size-mask", lambda s: re.sub(r"\(short\) ([\w.]+\.size\(\))", r"\1 & 0xFFFF", s))
alls("all-optional-body", lambda s: re.sub(r"if \((?:null != this\.(\w+)|this\.(\w+) != null)\) \{\s*this\.\w+\.encode\(byteBuf\);\s*\}", lambda m: "java.util.Optional.ofNullable(this.%s).ifPresent(c -> c.encode(byteBuf));" % (m.group(1) or m.group(2)), s))
alls("all-body-local", lambda s: re.sub(r"this\.(\w+) = (\w+)\.getInstance\(\)\.create\(this\.(\w+)\);\s*this\.\w+\.decode\(byteBuf\);", r"BinaryCodec made = \2.getInstance().create(this.\3);\n    made.decode(byteBuf);\n    this.\1 = made;", s))
alls("all-body-instance", lambda s: re.sub(r"(\w+Factory)\.getInstance\(\)\.create", r"\1.INSTANCE.create", s))


# ---------------------------------------------------------------- objects
def eq_ifs(cn, fl, t):
    def g(b):
        m = re.search(r"return Objects\.equals(.|\n)*?;", b)
        if not m: return None
        fs = re.findall(r"Objects\.equals\(\s*(\w+),\s*orther_\.(\w+)\)", m.group(0))
        return b[:m.start()] + "".join("if (!Objects.equals(this.%s, orther_.%s)) {\n      return false;\n    }\n    " % x for x in fs) + "return true;" + b[m.end():]
    return meth(t, EQ, g)


allc("all-equals-ifs", eq_ifs)


def eq_rev(cn, fl, t):
    def g(b):
        m = re.search(r"return Objects\.equals(.|\n)*?;", b)
        if not m: return None
        fs = re.findall(r"Objects\.equals\(\s*(\w+),\s*orther_\.(\w+)\)", m.group(0))
        ty = {n: x for x, n in fl}
        def cmp(a, c):
            if ty[a] in ("int", "long", "short", "byte"): return "this.%s == orther_.%s" % (a, c)
            if ty[a] in ("float", "double"): return "%s.compare(this.%s, orther_.%s) == 0" % (cap(ty[a]), a, c)
            return "(this.%s == null ? orther_.%s == null : this.%s.equals(orther_.%s))" % (a, c, a, c)
        return b[:m.start()] + "return " + " && ".join(cmp(*x) for x in reversed(fs)) + ";" + b[m.end():]
    return meth(t, EQ, g)


allc("all-equals-operators", eq_rev)


def eq_one(cn, fl, t):
    def g(b):
        m = re.search(r"return Objects\.equals(.|\n)*?;", b)
        if not m: return None
        return "\n    if (obj == null) {\n      return false;\n    }\n    if (!obj.getClass().equals(this.getClass())) {\n      return false;\n    }\n    final %s orther_ = (%s) obj;\n    boolean same = true;\n" % (cn, cn) + "".join("    same &= Objects.equals(this.%s, orther_.%s);\n" % (n, n) for x, n in fl) + "    return same;\n  "
    return meth(t, EQ, g)


allc("all-equals-flag", eq_one)


def hash31(cn, fl, t):
    return meth(t, HASH, lambda b: "\n    final int prime = 31;\n    int result = 1;\n" + "".join("    result = prime * result + Objects.hashCode(this.%s);\n" % n for x, n in fl) + "    return result;\n  ")


allc("all-hash-31", hash31)


def hashnum(cn, fl, t):
    def h(x, n):
        return {"int": n, "short": n, "byte": n, "long": "(int) (%s ^ (%s >>> 32))" % (n, n), "float": "Float.floatToIntBits(%s)" % n, "double": "Double.valueOf(%s).hashCode()" % n}.get(x, "(%s != null ? %s.hashCode() : 0)" % (n, n))
    return meth(t, HASH, lambda b: "\n    int h = 17;\n" + "".join("    h = 31 * h + %s;\n" % h(x, n) for x, n in fl) + "    return h;\n  ")


allc("all-hash-numbers", hashnum)
allc("all-hash-array", lambda cn, fl, t: meth(t, HASH, lambda b: "\n    Object[] values = {" + ", ".join(n for x, n in fl) + "};\n    return java.util.Arrays.hashCode(values);\n  "))


def str_sb(cn, fl, t):
    return meth(t, STR, lambda b: '\n    StringBuilder sb = new StringBuilder();\n    sb.append("%s [");\n' % cn + "".join('    sb.append("%s%s=").append(%s);\n' % (", " if i else "", n, n) for i, (x, n) in enumerate(fl)) + '    return sb.append(\']\').toString();\n  ')


allc("all-str-builder", str_sb)
allc("all-str-joiner", lambda cn, fl, t: meth(t, STR, lambda b: '\n    java.util.StringJoiner j = new java.util.StringJoiner(", ", "%s [", "]");\n' % cn + "".join('    j.add("%s=" + %s);\n' % (n, n) for x, n in fl) + "    return j.toString();\n  "))
allc("all-str-format", lambda cn, fl, t: meth(t, STR, lambda b: '\n    return String.format(\n        "%s [%s]"%s);\n  ' % (cn, ", ".join(n + "=%s" for x, n in fl), "".join(", this." + n for x, n in fl))))
allc("all-str-simplename", lambda cn, fl, t: meth(t, STR, lambda b: b.replace('"%s ["' % cn, 'getClass().getSimpleName() + " ["')))
allc("all-str-join", lambda cn, fl, t: meth(t, STR, lambda b: '\n    return "%s [" + String.join(", "%s) + "]";\n  ' % (cn, "".join(', "%s=" + this.%s' % (n, n) for x, n in fl))))

# ---------------------------------------------------------------- factories
alls("all-create-local", lambda s: re.sub(r"return supplier\.get\(\);", "final BinaryCodec made = supplier.get();\n      return made;", s))
alls("all-create-inverted", lambda s: re.sub(r"if \(null == supplier\) \{\s*(throw [^;]*;)\s*\}\s*return supplier\.get\(\);", r"if (supplier != null) {\n        return supplier.get();\n      }\n      \1", s))
alls("all-create-contains", lambda s: re.sub(r"Supplier<BinaryCodec> supplier = (\w+)\.get\((\w+)\);\s*if \(null == supplier\) \{\s*(throw [^;]*;)\s*\}\s*return supplier\.get\(\);", r"if (!\1.containsKey(\2)) {\n        \3\n      }\n      return \1.get(\2).get();", s))
alls("all-map-tree", lambda s: s.replace("new HashMap<>()", "new java.util.TreeMap<>()") if "reverseMap" not in s else s)
alls("all-map-linked", lambda s: s.replace("new HashMap<>()", "new java.util.LinkedHashMap<>()"))
alls("all-map-concurrent", lambda s: s.replace("new HashMap<>()", "new java.util.concurrent.ConcurrentHashMap<>()") if "reverseMap" not in s and "Map<String" in s else s)
alls("all-map-presized", lambda s: s.replace("new HashMap<>()", "new HashMap<>(64)"))
alls("all-lambda-suppliers", lambda s: re.sub(r"register\(([^(),]*), (\w+)::new\)", r"register(\1, () -> new \2())", s))
alls("all-remove-contains", lambda s: re.sub(r"return null != (\w+)\.remove\((\w+)\);", r"if (\1.containsKey(\2)) {\n        \1.remove(\2);\n        return true;\n      }\n      return false;", s))
alls("all-instance-direct", lambda s: re.sub(r"(\n\s*)getInstance\(\)\.register\(", r"\1INSTANCE.register(", s))

#!/usr/bin/env python3
"""Generates random Go types for the harness: typegen.py SEED COUNT > types_gen.go

Types that contain Number are generic over N ~string and instantiated with
jscandec.Number and json.Number (the reference).
"""
import random, sys

seed, count = int(sys.argv[1]), int(sys.argv[2])
R = random.Random(seed * 1000003 + 17)

SCALARS = ["bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16",
           "uint32", "uint64", "float32", "float64"]
NAMED = ["NBool", "NString", "NInt", "NInt8", "NInt16", "NInt32", "NInt64", "NUint", "NUint8", "NUint16",
         "NUint32", "NUint64", "NF32", "NF64", "NSlice", "NBytes", "NMap", "NMapSS", "NArr", "Empty", "NAny"]
UNM = ["UJ", "UJStr", "UJInt", "UJBool", "UJSlice", "UJMap", "UJArr", "UJEmpty", "UT", "UTStr", "UTInt", "UTBool",
       "UTBytes", "UTArr", "UTEmpty", "UBoth", "json.RawMessage", "UJBig", "UJVal", "UTVal", "UTree", "UJU8", "UTU8", "UJF64"]
KEYS = ["string", "string", "string", "NString", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16",
        "uint32", "uint64", "NInt16", "NUint64", "UT", "UTStr", "UTInt", "UTU8", "UTArr"]
NAMES = ["a", "b", "c", "A", "B", "id", "ID", "Id", "name", "Name", "NAME", "key", "value", "x", "y", "z", "kelvin",
         "sum", "size", "data", "items", "ünï", "é", "日本", "with space", "a.b", "a-b", "$ref", "very_long_field_name_here",
         "0", "1", "f1", "f2", "f3", "f4", "s", "S", "k", "K", "next", "left", "right", "kids"]
BADTAGS = [r'a\"b', "a'b", "a\\\\b", ",", ",,", ",omitempty", "bad\\nname"]

class Ctx:
    def __init__(self): self.num = False

def typ(d, cx, recs=(), allow_struct=True):
    """Returns a random type expression."""
    x = R.random()
    if d <= 0 or x < 0.28:
        y = R.random()
        if recs and y < 0.35 and d > -3:
            return rec(cx, recs)
        if y < 0.55: return R.choice(SCALARS)
        if y < 0.66: return R.choice(NAMED)
        if y < 0.74: return R.choice(UNM)
        if y < 0.84: return "any"
        if y < 0.90:
            cx.num = True
            return "N"
        if y < 0.94: return "struct{}"
        return R.choice(SCALARS)
    if x < 0.40: return "*" + typ(d - 1, cx, recs)
    if x < 0.58: return "[]" + typ(d - 1, cx, recs)
    if x < 0.68: return "[%d]%s" % (R.choice([0, 1, 1, 2, 2, 3, 4, 7]), typ(d - 1, cx, ()))
    if x < 0.84: return "map[%s]%s" % (key(cx), typ(d - 1, cx, recs))
    if allow_struct: return struct(d - 1, cx, recs)
    return "[]" + typ(d - 1, cx, recs)

def rec(cx, recs):
    r = R.choice(recs)
    return R.choice(["*%s", "*%s", "[]%s", "[]%s", "map[string]%s", "[]*%s", "map[int]*%s", "*[]%s", "[2]*%s",
                     "map[string][]%s", "[][]%s", "**%s", "*map[string]%s", "map[NString]%s", "[1][]%s",
                     "map[uint8]map[string]%s", "struct{ R []%s; Q int }", "[]struct{ V int8; M map[string]%s }",
                     "map[UTStr]%s"]) % r

def key(cx):
    if R.random() < 0.05:
        cx.num = True
        return "N"
    return R.choice(KEYS)

def struct(d, cx, recs=(), nf=None):
    if nf is None:
        nf = R.choice([0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 11])
    fs, used = [], set()
    for i in range(nf):
        go = "F%d" % i
        if R.random() < 0.3:
            c = R.choice(["A", "B", "Id", "Name", "Key", "Value", "X", "Sum", "Kk", "Ss"])
            if c not in used: go = c
        used.add(go)
        t = typ(d - 1, cx, recs)
        tag = ""
        y = R.random()
        if y < 0.07:
            # unexported field
            go = go.lower() + "_u%d" % i
            t = R.choice(["int", "string", "[]byte", "chan int", "func()", "map[string]int", "[3]uint16", "complex128", t])
            fs.append("%s %s" % (go, t)); continue
        if y < 0.10:
            fs.append('%s %s `json:"-"`' % (go, R.choice([t, "chan bool", "func(int)", "int", "string"]))); continue
        if y < 0.65:
            n = R.choice(NAMES)
            z = R.random()
            if z < 0.08: n = R.choice(BADTAGS)
            opts = ""
            if z > 0.8: opts += ",omitempty"
            tag = n + opts
        if t in SCALARS or t.lstrip("*") in SCALARS and t.count("*") == 1 or \
           t in ("NBool", "NString", "NInt16", "NUint8", "NF32", "NF64"):
            if R.random() < 0.35: tag += ",string" if tag != "-" else ""
        if tag == "-": tag = "-,"
        fs.append("%s %s%s" % (go, t, ' `json:"%s"`' % tag if tag else ""))
    return "struct{ " + "; ".join(fs) + " }" if fs else "struct{}"

out = []
regs = []
for i in range(count):
    kind = R.random()
    cx = Ctx()
    if kind < 0.62:
        # plain random type
        e = typ(R.choice([1, 2, 2, 3, 3, 4]), cx)
        names = ["G%d" % i]
        defs = [(names[0], e)]
    elif kind < 0.75:
        e = struct(3, cx, nf=R.choice([1, 2, 4, 5, 8, 9, 13, 17]))
        names = ["G%d" % i]
        defs = [(names[0], e)]
    else:
        # recursive family of 1 to 3 structs
        k = R.choice([1, 1, 1, 2, 2, 3])
        names = ["G%d%s" % (i, "abc"[j]) for j in range(k)]
        defs = []
        recs = ["%s@" % n for n in names]
        for n in names:
            nf = R.choice([1, 2, 3, 4, 5, 6])
            fs = []
            for j in range(nf):
                y = R.random()
                if y < 0.5: t = rec(cx, recs)
                elif y < 0.6: t = typ(2, cx, recs)
                else: t = typ(1, cx)
                tag = R.choice(['', '', ' `json:"%s"`' % R.choice(NAMES[:25])])
                fs.append("F%d %s%s" % (j, t, tag))
            defs.append((n, "struct{ " + "; ".join(fs) + " }"))
    g = cx.num
    for n, e in defs:
        if e == "N": e = "[]N"
        e = e.replace("@", "[N]" if g else "")
        out.append("type %s%s %s" % (n, "[N ~string]" if g else "", e))
    wrap = ["%s"]
    if len(names) > 1 or kind >= 0.75:
        wrap = R.choice([["%s"], ["%s", "[]%s"], ["%s", "map[string]%s"], ["[2]%s"], ["struct{ P, Q *%s }"], ["%s", "[]*%s"]])
    for n in names[:2]:
        for w in wrap:
            if g:
                a, b = w % (n + "[jscandec.Number]"), w % (n + "[json.Number]")
                regs.append('regP2[%s, %s]("%s")' % (a, b, w % n))
            else:
                regs.append('regP[%s]("%s")' % (w % n, w % n))

# Wide and deep types: many more fields and frames than fit into a byte, and
# (GWide2, not registered as an ordinary type) into 16 bits.
fs = []
for i in range(300):
    t = R.choice(SCALARS + ["any", "[]int", "*int8", "map[string]string", "struct{}", "UJ", "[2]bool", "N"])
    tag = ""
    if i % 7 == 3: tag = ' `json:"w%d"`' % i
    fs.append("F%d %s%s" % (i, t, tag))
out.append("type GWide[N ~string] struct { " + "; ".join(fs) + " }")
out.append("type GWideR struct { " + "; ".join("F%d %s" % (i, R.choice(["*GWideR", "[]GWideR", "map[string]GWideR", "[]*GWideR"]) if i % 60 == 20 or i > 266 else R.choice(["int8", "string", "bool", "*int", "[]uint8"])) for i in range(270)) + " }")
fs = ["F%d struct{ A%d, B int8; C [%d]string; D *struct{ E, F []bool }; G map[int8]struct{ H, I any } }" % (i, i % 10, i % 4) for i in range(150)]
out.append("type GWide1 struct { " + "; ".join(fs) + " }")
out.append("type GWide2 struct { First int; " + "; ".join("W%d GWide1" % i for i in range(40)) + "; Last []string; R *GWide2 }")
for i in range(60):
    out.append("type GDeep%d struct { A int8; X %s; B string }" % (i, (R.choice(["GDeep%d", "*GDeep%d", "[]GDeep%d", "[2]GDeep%d" if i % 9 == 5 else "[1]GDeep%d", "map[string]GDeep%d", "map[int8]*GDeep%d", "struct{ Y GDeep%d; Z int16 }"]) % (i + 1)) if i < 59 else "any"))
fs = []
base = "".join(R.choice("abcdefghijklmnopqrstuvwxyz_") for _ in range(1100))
k = 0
for n in [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000]:
    for v in range(3):
        name = list(base[:n])
        if v == 1: name[-1] = "Z"
        if v == 2: name[R.randrange(n)] = "0"
        fs.append("F%d %s `json:\"%s\"`" % (k, R.choice(["int8", "string", "bool", "*int16"]), "".join(name)))
        k += 1
out.append("type GLong struct { " + "; ".join(fs) + " }")
regs.append('regP[GLong]("GLong")')
regs.append('regP[map[string]GLong]("map[string]GLong")')
for n, t in [(300, "int8"), (257, "string"), (1000, "struct{A int8; B string}"), (65536, "bool"), (130, "[3]*int"), (256, "any"), (70000, "int16")]:
    regs.append('regP[[%d]%s]("[%d]%s")' % (n, t, n, t))
for n in [120, 127, 128, 129, 136, 256, 1024, 4000]:
    regs.append('regP[map[string]struct{A [%d]int8; B int8}]("map[string]struct{A [%d]int8; B int8}")' % (n, n))
    regs.append('regP[map[int16][%d]uint8]("map[int16][%d]uint8")' % (n, n))
regs.append('regP[map[UTStr][33]*int]("map[UTStr][33]*int")')
regs.append('regP[[]struct{A [300]int8; B string}]("[]struct{A [300]int8; B string}")')
regs.append('regP2[GWide[jscandec.Number], GWide[json.Number]]("GWide")')
regs.append('regP[GWideR]("GWideR")')
regs.append('regP[GDeep0]("GDeep0")')
regs.append('regP[GDeep30]("GDeep30")')
regs.append('regP[GDeep50]("GDeep50")')
regs.append('regP[************int]("************int")')
regs.append('regP[[][][][][][][][][][]int8]("[][][][][][][][][][]int8")')
regs.append('regP[map[string]map[int]map[string]map[int8]map[UTStr]map[string][]string]("map*6")')

print("// Code generated by typegen.py. DO NOT EDIT.\n\npackage main\n")
print('import (\n\t"encoding/json"\n\n\tjscandec "github.com/romshark/jscan-experimental-decoder"\n)\n')
print("var _ json.Number\nvar _ jscandec.Number\n")
for o in out: print(o)
print("\nfunc regGenerated() {")
for r in regs: print("\t" + r)
print("}")
print('\nvar wide2 = mk[*GWide2, *GWide2]("*GWide2", false)')

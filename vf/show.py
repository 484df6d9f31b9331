"""Prints bodies, for people: python3 -m vf.show FACTS.json PATTERN..."""
import json, sys
from .facts import Facts, Body


def ty(t):
    if t is None: return "?"
    k = t[0]
    if k == "adt":
        n = "::".join(t[1].split("::")[-1:])
        return n + ("<" + ",".join(ty(x) for x in t[2]) + ">" if t[2] else "")
    if k == "ref": return "&" + ("mut " if t[1] else "") + ty(t[2])
    if k == "ptr": return "*" + ty(t[2])
    if k == "tuple": return "(" + ",".join(ty(x) for x in t[1]) + ")"
    if k in ("param", "int", "float", "other"): return t[1]
    if k == "slice": return "[" + ty(t[1]) + "]"
    if k == "array": return "[" + ty(t[1]) + ";" + t[2] + "]"
    if k in ("closure", "coroutine", "fndef"): return k + ":" + t[1].split("::", 1)[-1][-60:]
    if k == "alias": return t[1].split("::")[-1] + "<" + ",".join(ty(x) for x in t[3]) + ">"
    return t[0]


def place(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e[0] == "deref": s = "(*%s)" % s
        elif e[0] == "field": s += ".%d" % e[1]
        elif e[0] == "downcast": s += "@%d" % e[1]
        else: s += "[%s]" % (e,)
    return s


def op(o):
    if o[0] in ("copy", "move"): return ("mv " if o[0] == "move" else "") + place(o[1])
    if o[0] == "const":
        c = o[1]
        if "fn" in c:
            f = c["fn"]
            r = f.get("res")
            return (r["path"] if r else f["path"]) + ("" if r else "!")
        if "val" in c:
            v = c["val"]
            if v[0] == "bytes": return "b" + repr(bytes(v[1]))
            return repr(v[1]) if len(v) == 2 else str(v)
        return "const(%s%s)" % (c.get("def", ty(c["ty"])), "#%s" % c["promoted"] if "promoted" in c else "")
    return str(o)


def rv(r):
    k = r[0]
    if k == "use": return op(r[1])
    if k in ("ref", "rawptr"): return "&" + ("mut " if r[1] else "") + place(r[2])
    if k == "discr": return "discr(%s)" % place(r[1])
    if k == "agg":
        n = r[1][0] if r[1][0] != "adt" else "%s#%s" % (r[1][1].split("::")[-1], r[1][2])
        if r[1][0] in ("closure", "coroutine"): n = r[1][1]
        return "%s{%s}" % (n, ", ".join(op(x) for x in r[2]))
    if k == "bin": return "%s(%s, %s)" % (r[1], op(r[2]), op(r[3]))
    if k == "un": return "%s(%s)" % (r[1], op(r[2]))
    if k == "cast": return "%s as %s [%s]" % (op(r[2]), ty(r[3]), r[1])
    return str(r)


def body(b, unwind=False):
    print("fn %s  [%s]%s" % (b.path, b.span, " promoted %s" % b.promoted if b.promoted is not None else ""))
    names = {}
    for n, p in b.names or ():
        names.setdefault(place(p), n)
    for i, l in enumerate(b.locals):
        print("   _%d: %s %s" % (i, ty(l), names.get("_%d" % i, "")))
    for i, bl in enumerate(b.blocks):
        if bl["c"]: continue
        print("  bb%d:" % i)
        for s in bl["s"]:
            if s[0] == "assign": print("     %s = %s" % (place(s[1]), rv(s[2])))
            elif s[0] in ("live", "dead"): pass
            else: print("    ", s)
        t = bl["t"]
        k = t["k"]
        ex = " {%s}" % ",".join(t["exp"]) if "exp" in t else ""
        if k == "call": print("     %s = %s(%s) -> %s%s" % (place(t["dest"]), op(t["func"]), ", ".join(op(a) for a in t["args"]), t["t"], ex))
        elif k == "switch": print("     switch %s %s else %s%s" % (op(t["op"]), t["cases"], t["otherwise"], ex))
        elif k == "drop": print("     drop %s -> %s" % (place(t["place"]), t["t"]))
        elif k == "assert": print("     assert %s==%s %s -> %s" % (op(t["cond"]), t["expected"], t["msg"], t["t"]))
        else: print("     %s %s%s" % (k, t.get("t", ""), ex))


if __name__ == "__main__":
    f = Facts(json.load(open(sys.argv[1])))
    for p in sys.argv[2:]:
        for b in list(f.bodies.values()) + list(f.promoted.values()):
            if p in b.path: body(b)

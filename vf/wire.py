"""Models of serde: what the serialization code of the crate makes of a value, and of JSON of a given shape.

JSON is a term: ("jnull",), ("jbool", t), ("jnum", t): an integer, ("jfloat", t), ("jstr", t), ("jobj", ((key, shape), …)),
("jarr", (shape, …)), ("jany", t): any JSON, the value named by `t`, and ("jmissing",): no member.
A serializer returns the shape that it was told to write, a deserializer walks the shape that it
holds. The impls of the crate's own types, derived or not, are entered; those of serde for the
types of the standard library and of serde_json are modelled here.
"""
from .engine import *
from .models import strip
from .tables import CLIENT, known
from . import tables

WIRE = dict(CLIENT)
SER_T = ("adt", "vf::Serializer", ())
DE_T = ("adt", "vf::Deserializer", ())
MAP_T = ("adt", "vf::MapAccess", ())
SER = ("ser",)
S, D = "serde_core::ser::", "serde_core::de::"
NULL = ("jnull",)
MISSING = ("jmissing",)
VALUE = "serde_json::value::Value"
BAD = err(("sym", "refused"))


def wmodel(*names):
    def f(g):
        for n in names:
            WIRE[n] = g
        return g
    return f


def inner(e, st, v):
    for _ in range(6):
        if v[0] == "ref":
            v = e.read(st, v[1], v[2])
        elif v[0] == "box" and len(v) > 1:
            v = v[1]
        else:
            break
    return v


def callee(trait, name):
    return (trait + "::" + name, "", trait, name, None)


def invoke(e, st, trait, name, gargs, args, info):
    return e.call_fn(st, callee(trait, name), gargs, args, info[5], info[6])


# ----------------------------------------------------------------------------------- serializing

def std_name(ty):
    """The type, if it is one of those whose serialization is modelled."""
    if ty[0] in ("ref", "int", "uint", "float", "bool", "str", "char", "tuple"):
        return ty[0]
    if ty[0] == "adt":
        return {"core::option::Option": "option", "alloc::borrow::Cow": "str", "alloc::string::String": "str", VALUE: "value",
                "alloc::boxed::Box": "box", "alloc::sync::Arc": "box"}.get(ty[1])
    return None


@wmodel(S + "Serialize::serialize")
def m_serialize(e, st, args, info):
    ty = info[4][0]
    k = std_name(ty)
    v = inner(e, st, args[0])
    if k == "ref":
        return invoke(e, st, info[2], "serialize", (ty[2],) + info[4][1:], (e.deref(st, args[0]), args[1]), info)
    if k == "box":
        return invoke(e, st, info[2], "serialize", (ty[2][0],) + info[4][1:], (args[0], args[1]), info)
    if k == "option":
        out = []
        for s, d in e.split(st, v):
            if d == 0:
                out += emit(e, s, args[1], NULL)
            else:
                out += invoke(e, s, info[2], "serialize", (ty[2][0],) + info[4][1:], (e.alloc(s, e.payload(v, 1)), args[1]), info)
        return out
    if k == "str":
        return emit(e, st, args[1], ("jstr", text(e, st, v)))
    if k == "value":
        return emit(e, st, args[1], ("jany", v) if v[0] != "jval" else v[1])
    if k == "bool":
        return emit(e, st, args[1], ("jbool", e.ev(st, v)))
    if k in ("int", "uint", "float"):
        return emit(e, st, args[1], ("jnum", e.ev(st, v)))
    if k == "tuple" and not ty[1]:
        return emit(e, st, args[1], NULL)
    if e.select(S + "Serialize", "serialize", info[4]):
        return None
    return emit(e, st, args[1], ("jany", v))


def text(e, st, v):
    """The text of a string, by reference, owned, or either."""
    for _ in range(6):
        v = inner(e, st, v)
        if v[0] == "adt" and v[1] == "alloc::borrow::Cow":
            v = v[3][0]
        elif v[0] == "call" and v[1].rsplit("::", 1)[-1] in ("to_string", "to_owned", "into", "from", "as_str", "into_owned", "as_ref", "deref") and v[2]:
            v = v[2][0]
        elif v[0] in ("&", "deref"):
            v = v[1]
        else:
            break
    return v


STRINGS = ("alloc::string::String", "alloc::borrow::Cow", "alloc::boxed::Box")


def is_text(t):
    while t[0] == "ref":
        t = t[2]
    return t[0] == "str" or t[0] == "adt" and t[1] in STRINGS and any(a and a[0] == "str" for a in t[2] or (("str",),))


@wmodel("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def m_str_eq(e, st, args, info):
    """Texts are compared by content, however they are held."""
    if len(info[4]) < 2 or not (is_text(info[4][0]) and is_text(info[4][1])):
        return None
    a, b = text(e, st, args[0]), text(e, st, args[1])
    if a[0] == "str" and b[0] != "str":
        a, b = b, a
    if a[0] == "str":
        return ret(st, ("int", int((a[1] == b[1]) == (info[3] == "eq"))))
    return ret(st, e.ev(st, ("bin", "Eq" if info[3] == "eq" else "Ne", a, b)))


def emit(e, st, ser, shape):
    """What `ser.serialize_…` returns: the shape, or for the part of a flattened object, nothing."""
    ser = inner(e, st, ser) if ser[0] == "ref" else ser
    if ser[0] == "ser":
        return ret(st, ok(shape))
    if ser[0] == "adt" and ser[1].endswith("::FlatMapSerializer"):
        r, p = e.pointee(ser[3][0])
        cur = e.read(st, r, p)
        if shape[0] != "jobj" or cur[0] != "jobj":
            return ret(st, BAD)
        e.write(st, r, p, ("jobj", cur[1] + shape[1]))
        return ret(st, ok(UNIT))
    raise Limit("serializer %s" % show(ser)[:60])


def scalar(kind):
    def m(e, st, args, info):
        name = info[3]
        if name in ("serialize_none", "serialize_unit", "serialize_unit_struct"):
            return emit(e, st, args[0], NULL)
        if name == "serialize_bool":
            return emit(e, st, args[0], ("jbool", e.ev(st, args[1])))
        if name in ("serialize_str", "collect_str", "serialize_char"):
            return emit(e, st, args[0], ("jstr", text(e, st, args[1])))
        if name == "serialize_unit_variant":
            return emit(e, st, args[0], ("jstr", args[3]))
        return emit(e, st, args[0], ("jnum", e.ev(st, args[1])))
    return m


for _n in ("i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 bool str char none unit unit_struct unit_variant".split()):
    WIRE[S + "Serializer::serialize_" + _n] = scalar(_n)
WIRE[S + "Serializer::collect_str"] = scalar("str")


@wmodel(S + "Serializer::serialize_some", S + "Serializer::serialize_newtype_struct")
def m_ser_some(e, st, args, info):
    ty = info[4][1]
    return invoke(e, st, S + "Serialize", "serialize", (ty, info[4][0]), (args[-1], args[0]), info)


@wmodel(S + "Serializer::serialize_struct", S + "Serializer::serialize_map")
def m_ser_struct(e, st, args, info):
    # The compound remembers where it goes.
    ser = inner(e, st, args[0]) if args[0][0] == "ref" else args[0]
    if ser[0] == "ser":
        return ret(st, ok(("jobj", ())))
    return ret(st, ok(("jsub", ser, ("jobj", ()))))


def add(e, st, ref, key, shape):
    r, p = e.pointee(ref)
    c = e.read(st, r, p)
    if c[0] == "jsub":
        e.write(st, r, p, ("jsub", c[1], ("jobj", c[2][1] + ((key, shape),))))
    elif c[0] == "jobj":
        e.write(st, r, p, ("jobj", c[1] + ((key, shape),)))
    else:
        raise Limit("compound %s" % show(c)[:60])


def key_text(e, st, k):
    k = text(e, st, k)
    return k[1] if k[0] == "str" else k


@wmodel(S + "SerializeStruct::serialize_field", S + "SerializeMap::serialize_entry", S + "SerializeStructVariant::serialize_field")
def m_field(e, st, args, info):
    vt = info[4][-1]
    out = []
    for s, k, v in invoke(e, st, S + "Serialize", "serialize", (vt, SER_T), (args[2], SER), info):
        if k != "ret":
            out.append((s, k, v))
            continue
        for s2, d in e.split(s, v):
            if d == 1:
                out.append((s2, "ret", v))
            else:
                add(e, s2, args[0], key_text(e, s2, args[1]), e.payload(v, 0))
                out.append((s2, "ret", ok(UNIT)))
    return out


@wmodel(S + "SerializeStruct::skip_field")
def m_skip(e, st, args, info):
    return ret(st, ok(UNIT))


@wmodel(S + "SerializeStruct::end", S + "SerializeMap::end")
def m_end(e, st, args, info):
    c = args[0]
    if c[0] == "jsub":
        return emit(e, st, c[1], c[2])
    return ret(st, ok(c))


# --------------------------------------------------------------------------------- deserializing

def shape_of(e, st, d):
    """The JSON that the deserializer reads."""
    for _ in range(4):
        d = inner(e, st, d) if d[0] == "ref" else d
        if d[0] == "jde":
            return d[1]
        if d[0] == "adt" and d[3]:
            n = d[1].rsplit("::", 1)[-1]
            if n == "FlatMapDeserializer":
                v = inner(e, st, d[3][0])
                if v[0] != "vec" or v[2] is not None:
                    raise Limit("flattened members %s" % show(v)[:60])
                return ("jobj", tuple(x for x in (pair(e, st, i) for i in v[1] + v[3]) if x))
            if n in ("ContentRefDeserializer", "ContentDeserializer"):
                d = d[3][0]
                continue
        if d[0] in ("jnull", "jstr", "jnum", "jbool", "jobj", "jany", "jarr", "jfloat", "jmissing"):
            return d
        break
    raise Limit("deserializer %s" % show(d)[:80])


def pair(e, st, i):
    """An entry of a vector of options of members."""
    d = e.variant(st, i)
    if d == 0:
        return None
    if d is None:
        raise Limit("flattened member %s" % show(i)[:60])
    t = inner(e, st, e.payload(i, 1))
    k, v = proj(t, ("f", 0)), proj(t, ("f", 1))
    k = shape_of(e, st, content(e, k))
    return (k[1][1], shape_of(e, st, v))


def content(e, k):
    """A piece of serde's buffered content, as JSON."""
    if k[0] != "adt" or not k[1].endswith("::Content"):
        return k
    n = e.F.adts[k[1]]["variants"][k[2]]["name"]
    if n in ("String", "Str"):
        return ("jstr", literal(text(e, State(), k[3][0])))
    if n in ("Unit", "None"):
        return NULL
    raise Limit("content %s" % show(k)[:60])


def visit(e, st, info, visitor, vty, method, vals, vgargs=()):
    """Calls a method of the visitor; one that it does not have refuses."""
    if vty[0] == "adt" and vty[1].endswith("::UntaggedUnitVisitor"):
        return ret(st, ok(UNIT) if method == "visit_unit" else BAD)
    sel = e.select(D + "Visitor", method, (vty,))
    if sel is None or sel[0] is None:
        alt = {"visit_borrowed_str": "visit_str", "visit_string": "visit_str", "visit_i8": "visit_i64", "visit_i32": "visit_i64"}.get(method)
        if alt:
            return visit(e, st, info, visitor, vty, alt, vals, vgargs)
        return ret(st, BAD)
    return e.run(st, sel[0], {**sel[1], **dict(zip([x for x in e.F.generics.get(sel[0].key, ()) if x not in sel[1] or sel[1][x][0] == "param"], vgargs))}, (visitor,) + vals)


def walk_shape(e, st, info, sh, visitor, vty, hint):
    """What a self-describing deserializer does with the visitor."""
    k = sh[0]
    if k == "jmissing":
        if hint == "option":
            return visit(e, st, info, visitor, vty, "visit_none", ())
        return ret(st, BAD)
    if hint == "option":
        if k == "jnull":
            return visit(e, st, info, visitor, vty, "visit_none", ())
        if k != "jany":
            return visit(e, st, info, visitor, vty, "visit_some", (("jde", sh),), (DE_T,))
    if hint == "newtype_struct":
        return visit(e, st, info, visitor, vty, "visit_newtype_struct", (("jde", sh),), (DE_T,))
    if hint == "ignored_any":
        return ret(st, ok(UNIT))
    if k == "jobj" and hint in ("struct", "map", "any"):
        m = e.alloc(st, ("jmap", sh[1], None))
        out = []
        for s, kind, v in visit(e, st, info, visitor, vty, "visit_map", (m,), (MAP_T,)):
            out.append((s, kind, v))
        return out
    if k == "jnull" and hint in ("any", "unit", "unit_struct"):
        return visit(e, st, info, visitor, vty, "visit_unit", ())
    if k == "jstr" and hint in ("any", "str", "string", "identifier"):
        v = sh[1]
        return visit(e, st, info, visitor, vty, "visit_str", (e.alloc(st, v) if v[0] != "str" else v,), ())
    if k == "jnum" and hint in ("any", "i64", "u64", "i32", "u32"):
        return visit(e, st, info, visitor, vty, "visit_i64", (sh[1],))
    if k == "jbool" and hint in ("any", "bool"):
        return visit(e, st, info, visitor, vty, "visit_bool", (sh[1],))
    if k == "jany":
        raise Limit("visits JSON of unknown shape")
    return ret(st, BAD)


def m_de(e, st, args, info):
    name = info[3][len("deserialize_"):]
    sh = shape_of(e, st, args[0])
    return walk_shape(e, st, info, sh, args[-1], info[4][-1], name)


for _n in ("any bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple "
           "tuple_struct map struct enum identifier ignored_any").split():
    WIRE[D + "Deserializer::deserialize_" + _n] = m_de


@wmodel(D + "Deserialize::deserialize")
def m_deserialize(e, st, args, info):
    ty = info[4][0]
    local = e.select(D + "Deserialize", "deserialize", info[4])
    if local and local[0].local:
        return None
    sh = shape_of(e, st, args[0])
    k = std_name(ty)
    if ty[0] == "adt" and ty[1].endswith("::Content"):
        return ret(st, BAD if sh == MISSING else ok(sh))
    if ty[0] == "adt" and ty[1].endswith("::IgnoredAny"):
        return ret(st, ok(("adt", ty[1], 0, ())))
    if k == "option":
        if sh in (NULL, MISSING):
            return ret(st, ok(none()))
        out = []
        for s, kind, v in invoke(e, st, info[2], "deserialize", (ty[2][0], DE_T), (("jde", sh),), info):
            if kind != "ret":
                out.append((s, kind, v))
                continue
            for s2, d in e.split(s, v):
                out.append((s2, "ret", ok(some(e.payload(v, 0))) if d == 0 else v))
        return out
    if sh == MISSING:
        return ret(st, BAD)
    if k == "value":
        return ret(st, ok(sh[1] if sh[0] == "jany" else ("jval", sh)))
    if sh[0] == "jany":
        v = ("call", "decode", (sh[1], ("str", ty_str(ty))), 0)
        return ret(st, ok(v)) + [(st.fork(), "ret", BAD)]
    if k == "str":
        if sh[0] != "jstr":
            return ret(st, BAD)
        return ret(st, ok(("adt", "alloc::borrow::Cow", 1, (sh[1],)) if ty[1] == "alloc::borrow::Cow" else sh[1]))
    if k in ("int", "uint"):
        return ret(st, ok(sh[1]) if sh[0] == "jnum" else BAD)
    if k == "bool":
        return ret(st, ok(sh[1]) if sh[0] == "jbool" else BAD)
    if k == "tuple" and not ty[1]:
        return ret(st, ok(UNIT) if sh == NULL else BAD)
    if k == "box":
        return invoke(e, st, info[2], "deserialize", (ty[2][0], DE_T), args, info)
    raise Limit("decoding of %s" % ty_str(ty))


PRIV = "serde::private::de::"


def private(*names):
    """A function of serde that only derived code calls."""
    return wmodel(*(PRIV + n for n in names))


@private("missing_field")
def m_missing(e, st, args, info):
    ty = info[4][0] if info[4][0][0] != "region" else info[4][1]
    return invoke(e, st, D + "Deserialize", "deserialize", (ty, DE_T), (("jde", MISSING),), info)


@private("borrow_cow_str")
def m_borrow(e, st, args, info):
    sh = shape_of(e, st, args[0])
    if sh[0] == "jany":
        v = ("call", "decode", (sh[1], ("str", "str")), 0)
        return ret(st, ok(("adt", "alloc::borrow::Cow", 0, (v,)))) + [(st.fork(), "ret", BAD)]
    return ret(st, ok(("adt", "alloc::borrow::Cow", 0, (sh[1],))) if sh[0] == "jstr" else BAD)


@private("content::ContentRefDeserializer::new", "content::ContentDeserializer::new")
def m_content(e, st, args, info):
    return ret(st, ("jde", shape_of(e, st, args[0])))


@wmodel(D + "MapAccess::next_key")
def m_next_key(e, st, args, info):
    r, p = e.pointee(args[0])
    m = e.read(st, r, p)
    if m[0] == "ref":
        r, p = e.pointee(m)
        m = e.read(st, r, p)
    if m[0] != "jmap":
        raise Limit("members of %s" % show(m)[:60])
    if not m[1]:
        return ret(st, ok(none()))
    (k, v), rest = m[1][0], m[1][1:]
    e.write(st, r, p, ("jmap", rest, v))
    out = []
    for s, kind, x in invoke(e, st, D + "Deserialize", "deserialize", (info[4][1], DE_T), (("jde", ("jstr", ("str", k))),), info):
        if kind != "ret":
            out.append((s, kind, x))
            continue
        for s2, d in e.split(s, x):
            out.append((s2, "ret", ok(some(e.payload(x, 0))) if d == 0 else x))
    return out


@wmodel(D + "MapAccess::next_value")
def m_next_value(e, st, args, info):
    r, p = e.pointee(args[0])
    m = e.read(st, r, p)
    if m[0] == "ref":
        r, p = e.pointee(m)
        m = e.read(st, r, p)
    v = m[2]
    if v is None:
        raise Limit("value without a key")
    e.write(st, r, p, ("jmap", m[1], None))
    return invoke(e, st, D + "Deserialize", "deserialize", (info[4][1], DE_T), (("jde", v),), info)


@private("content::ContentVisitor::new", "content::UntaggedUnitVisitor::new")
def m_visitor(e, st, args, info):
    return ret(st, ("contentvisitor",))


@wmodel(D + "DeserializeSeed::deserialize")
def m_seed(e, st, args, info):
    if args[0] != ("contentvisitor",):
        return None
    sh = shape_of(e, st, args[1])
    return ret(st, BAD if sh == MISSING else ok(sh))


@wmodel(D + "MapAccess::next_value_seed")
def m_next_seed(e, st, args, info):
    if args[1] != ("contentvisitor",):
        return None
    r, p = e.pointee(args[0])
    m = e.read(st, r, p)
    if m[0] == "ref":
        r, p = e.pointee(m)
        m = e.read(st, r, p)
    e.write(st, r, p, ("jmap", m[1], None))
    return ret(st, ok(m[2]))

"""Models of byte buffers and strings, for the codec: what a buffer holds, as a term.

The content of a buffer is the content it had at the start, with bytes removed from its front
(`("adv", content, n)`), taken from it (`("pre", content, n)`), or with pieces appended
(`("cat", content, pieces)`, a piece being literal text, other text, or a formatted value).
"""
from .engine import *
from .models import strip

EMPTY = ("empty",)
BYTES = {}

# Conversions which keep the bytes.
SAME = {"as_bytes", "as_str", "as_slice", "as_ref", "borrow", "to_owned", "to_vec", "into_bytes", "into_boxed_str", "into", "from",
        "deref", "deref_mut", "as_mut", "as_mut_slice", "freeze", "chunk", "into_string", "to_string", "clone", "into_boxed_slice",
        "into_vec", "as_mut_str"}


def bmodel(*names):
    def f(g):
        for n in names:
            BYTES[n] = g
        return g
    return f


def peel(e, st, v, d=0):
    """The text or bytes that a value stands for: without references and conversions."""
    for _ in range(30):
        k = v[0]
        if k == "ref":
            v = e.read(st, v[1], v[2])
        elif k == "&" or k == "deref":
            v = v[1]
        elif k == "call" and last(v[1]) in SAME and len(v[2]) == 1 and not v[1].startswith("serde_json") and not v[3]:
            v = v[2][0]
        elif k == "fld" and v[2] == 0 and v[1][0] == "as" and v[1][2] == 0 and v[1][1][0] == "call" \
                and last(v[1][1][1]) in ("from_utf8", "from_utf8_mut") and len(v[1][1][2]) == 1:
            v = v[1][1][2][0]
        elif k == "call" and last(v[1]) in ("from_utf8_unchecked",):
            v = v[2][0]
        elif k == "adt" and v[1].endswith("borrow::Cow") and v[3]:
            v = v[3][0]
        else:
            break
    if v[0] in ("adv", "pre") and d < 20:
        return (v[0], peel(e, st, v[1], d + 1), v[2])
    if v[0] == "cat" and d < 20:
        return (v[0], peel(e, st, v[1], d + 1), v[2])
    if v[0] == "sl" and d < 20:
        return slice_of(peel(e, st, v[1], d + 1), v[2], v[3])
    if v[0] == "call" and last(v[1]) in ("index", "index_mut") and len(v[2]) == 2 and d < 20:
        r = span_of(v[2][1])
        if r:
            return slice_of(peel(e, st, v[2][0], d + 1), *r)
    if v[0] == "fld" and v[2] in (0, 1) and v[1][0] == "call" and last(v[1][1]) == "split_at" and d < 20:
        x, n = v[1][2]
        return ("pre", peel(e, st, x, d + 1), n) if v[2] == 0 else ("adv", peel(e, st, x, d + 1), n)
    if v[0] == "fld" and v[2] == 0 and v[1][0] == "as" and v[1][2] == 1 and v[1][1][0] == "call" and last(v[1][1][1]) == "get" \
            and len(v[1][1][2]) == 2 and d < 20:
        r = span_of(v[1][1][2][1])
        if r:
            return slice_of(peel(e, st, v[1][1][2][0], d + 1), *r)
    return v


def rejected_input(e, st, call, n):
    """Input that parse_headers rejects or finds a header in is not empty."""
    if n == 1:
        k = ("b", length(e, st, call[2][0]))
        lo, hi = st.facts.get(k, (None, None))
        st.facts[k] = (max(lo or 0, 1), hi)


IMPLIED["httparse::parse_headers"] = rejected_input


def last(name):
    return strip(name).rsplit("::", 1)[-1]


def span_of(r):
    """The bounds of a range value."""
    if r[0] != "adt":
        return None
    n = r[1].rsplit("::", 1)[-1]
    if n == "RangeTo":
        return (("int", 0), r[3][0])
    if n == "RangeFrom":
        return (r[3][0], None)
    if n == "Range":
        return (r[3][0], r[3][1])
    if n == "RangeFull":
        return (("int", 0), None)
    return None


def slice_of(x, lo, hi):
    if lo == ("int", 0):
        return x if hi is None else ("pre", x, hi)
    if hi is None:
        return ("adv", x, lo)
    return ("sl", x, lo, hi)


def length(e, st, v):
    x = peel(e, st, v)
    if x[0] in ("str", "bytes"):
        return ("int", len(x[1].encode() if x[0] == "str" else x[1]))
    if x == EMPTY:
        return ("int", 0)
    if x[0] == "pre":
        return x[2]
    if x[0] == "cat" and x[1] == EMPTY and not x[2]:
        return ("int", 0)
    return ("call", "len", (x,), 0)


def here(e, st, ref):
    r, p = e.pointee(ref)
    return r, p, e.read(st, r, p)


@bmodel("bytes::buf::buf_impl::Buf::advance")
def b_advance(e, st, args, info):
    r, p, x = here(e, st, args[0])
    st.log(Event("call", "advance", args, (peel(e, st, x), args[1]), UNIT, info[5]["sp"], info[6].path if info[6] else ""))
    e.write(st, r, p, ("adv", x, args[1]))
    return ret(st, UNIT)


@bmodel("bytes::bytes_mut::BytesMut::split_to", "bytes::bytes_mut::BytesMut::copy_to_bytes", "bytes::buf::buf_impl::Buf::copy_to_bytes")
def b_split_to(e, st, args, info):
    r, p, x = here(e, st, args[0])
    st.log(Event("call", "advance", args, (peel(e, st, x), args[1]), UNIT, info[5]["sp"], info[6].path if info[6] else ""))
    e.write(st, r, p, ("adv", x, args[1]))
    return ret(st, ("pre", x, args[1]))


@bmodel("bytes::bytes_mut::BytesMut::split")
def b_split(e, st, args, info):
    r, p, x = here(e, st, args[0])
    e.write(st, r, p, ("adv", x, length(e, st, x)))
    return ret(st, x)


@bmodel("bytes::bytes_mut::BytesMut::clear", "alloc::string::String::clear", "alloc::vec::Vec::clear")
def b_clear(e, st, args, info):
    r, p, x = here(e, st, args[0])
    n = length(e, st, x)
    st.log(Event("call", "advance", args, (peel(e, st, x), n), UNIT, info[5]["sp"], info[6].path if info[6] else ""))
    e.write(st, r, p, ("adv", x, n))
    return ret(st, UNIT)


@bmodel("bytes::bytes_mut::BytesMut::reserve", "alloc::string::String::reserve", "alloc::vec::Vec::reserve",
        "bytes::bytes_mut::BytesMut::try_reclaim", "bytes::bytes_mut::BytesMut::capacity")
def b_reserve(e, st, args, info):
    if info[0].endswith("reserve"):
        return ret(st, UNIT)
    return ret(st, ("call", "capacity", (), st.fresh()))


@bmodel("bytes::bytes_mut::BytesMut::len", "alloc::string::String::len", "alloc::vec::Vec::len", "core::slice::<impl [T]>::len",
        "core::str::<impl str>::len", "bytes::buf::buf_impl::Buf::remaining", "bytes::bytes::Bytes::len")
def b_len(e, st, args, info):
    n = length(e, st, args[0])
    if n[0] != "int":
        lo, hi = e.bounds(st, n)
        if lo is None:
            st.facts[("b", n)] = (0, hi)
    return ret(st, n)


@bmodel("bytes::bytes_mut::BytesMut::is_empty", "alloc::string::String::is_empty", "alloc::vec::Vec::is_empty",
        "core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty", "bytes::bytes::Bytes::is_empty")
def b_is_empty(e, st, args, info):
    n = length(e, st, args[0])
    if n[0] != "int" and e.bounds(st, n)[0] is None:
        st.facts[("b", n)] = (0, None)
    return ret(st, e.ev(st, e.binop(st, "Eq", n, ("int", 0))))


@bmodel("bytes::buf::buf_impl::Buf::has_remaining")
def b_has(e, st, args, info):
    return ret(st, e.ev(st, e.binop(st, "Ne", length(e, st, args[0]), ("int", 0))))


# ------------------------------------------------------------------------------------------- text

@bmodel("alloc::string::String::new", "alloc::string::String::with_capacity", "alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity",
        "bytes::bytes_mut::BytesMut::new", "bytes::bytes_mut::BytesMut::with_capacity")
def b_new(e, st, args, info):
    return ret(st, EMPTY)


def append(e, st, ref, pieces):
    r, p, x = here(e, st, ref)
    while x[0] == "ref":
        r, p, x = x[1], x[2], e.read(st, x[1], x[2])
    if x[0] == "writer":
        return append(e, st, x[1], pieces)
    if x[0] == "cat":
        e.write(st, r, p, ("cat", x[1], merge(x[2] + tuple(pieces))))
    else:
        e.write(st, r, p, ("cat", x, merge(tuple(pieces))))


def merge(ps):
    """Joins neighbouring literals."""
    out = []
    for p in ps:
        if p[0] == "lit" and not p[1]:
            continue
        if p[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + p[1])
        else:
            out.append(p)
    return tuple(out)


def text(e, st, v):
    """The pieces of a piece of text."""
    x = peel(e, st, v)
    if x[0] == "str":
        return (("lit", x[1].encode()),)
    if x[0] == "bytes":
        return (("lit", bytes(x[1])),)
    if x[0] == "array" and all(y[0] == "int" for y in x[1]):
        return (("lit", bytes(y[1] for y in x[1])),)
    if x[0] == "cat" and x[1] == EMPTY:
        return x[2]
    if x == EMPTY:
        return ()
    if x[0] == "fmt":
        return formatted(e, st, x)
    return (("txt", x),)


def displayed(e, st, a):
    if a[0] == "fmtarg" and a[1] == "display":
        x = peel(e, st, a[2])
        if x[0] == "int":
            return (("lit", str(x[1]).encode()),)
        if x[0] in ("str", "cat", "fmt"):
            return text(e, st, x)
        return (("show", x),)
    return (("other", a),)


def formatted(e, st, f):
    """The pieces that a format template with its arguments produces."""
    t, args = f[1], f[2]
    if t[0] == "str":
        return (("lit", t[1].encode()),)
    while t[0] in ("&", "deref", "ref"):
        t = e.read(st, t[1], t[2]) if t[0] == "ref" else t[1]
    if t[0] == "str":
        return (("lit", t[1].encode()),)
    if t[0] != "bytes":
        return (("other", f),)
    b, i, n, out = bytes(t[1]), 0, 0, []
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(("lit", b[i:i + c]))
            i += c
        elif c == 0x80:
            k = b[i] | b[i + 1] << 8
            out.append(("lit", b[i + 2:i + 2 + k]))
            i += 2 + k
        elif c == 0xC0:
            out.extend(displayed(e, st, args[n]) if n < len(args) else (("other", f),))
            n += 1
        else:
            return (("other", f),)
    return merge(out)


@bmodel("alloc::fmt::format", "alloc::fmt::format::format_inner")
def b_format(e, st, args, info):
    return ret(st, ("cat", EMPTY, text(e, st, args[0])))


@bmodel("alloc::string::ToString::to_string", "alloc::borrow::ToOwned::to_owned", "core::convert::From::from", "core::convert::Into::into")
def b_to_string(e, st, args, info):
    path, rpath, trait, name, gargs = info[:5]
    if name == "to_string":
        t = gargs[0] if gargs else ()
        x = args[0]
        if t and t[0] in ("int", "uint", "float", "bool", "char"):
            return ret(st, ("cat", EMPTY, displayed(e, st, ("fmtarg", "display", e.snap(st, e.deref(st, x))))))
    return None


@bmodel("alloc::string::String::push_str", "alloc::vec::Vec::extend_from_slice", "bytes::bytes_mut::BytesMut::extend_from_slice",
        "bytes::buf::buf_mut::BufMut::put_slice", "bytes::buf::buf_mut::BufMut::put", "core::iter::traits::collect::Extend::extend",
        "bytes::bytes_mut::BytesMut::unsplit")
def b_append(e, st, args, info):
    append(e, st, args[0], text(e, st, args[1]))
    return ret(st, UNIT)


@bmodel("alloc::string::String::push", "alloc::vec::Vec::push", "bytes::buf::buf_mut::BufMut::put_u8")
def b_push(e, st, args, info):
    r, p, x = here(e, st, args[0])
    if x[0] not in ("empty", "cat", "deref") and "BufMut" not in info[0]:
        return None
    c = args[1]
    append(e, st, args[0], (("lit", chr(c[1]).encode() if "String" in info[0] else bytes([c[1]])) if c[0] == "int" else ("chr", c),))
    return ret(st, UNIT)


@bmodel("bytes::buf::buf_mut::BufMut::writer")
def b_writer(e, st, args, info):
    return ret(st, ("writer", args[0]))


@bmodel("bytes::buf::writer::Writer::get_mut", "bytes::buf::writer::Writer::get_ref", "bytes::buf::writer::Writer::into_inner")
def b_writer_in(e, st, args, info):
    w = e.deref(st, args[0]) if args[0][0] == "ref" else args[0]
    return ret(st, w[1]) if w[0] == "writer" else None


def target(e, st, ref):
    """Is this a sink in memory, which never fails?"""
    r, p, x = here(e, st, ref)
    while x[0] == "ref":
        r, p, x = x[1], x[2], e.read(st, x[1], x[2])
    return x[0] in ("writer", "cat", "empty") or x[0] in ("deref", "adv")


@bmodel("core::io::write::Write::write_fmt", "std::io::Write::write_fmt", "core::fmt::Write::write_fmt",
        "core::io::write::Write::write_all", "std::io::Write::write_all", "core::fmt::Write::write_str")
def b_write(e, st, args, info):
    if not target(e, st, args[0]):
        return None
    append(e, st, args[0], text(e, st, args[1]))
    return ret(st, ok(UNIT))


@bmodel("core::io::write::Write::flush", "std::io::Write::flush")
def b_flush(e, st, args, info):
    return ret(st, ok(UNIT)) if target(e, st, args[0]) else None


# -------------------------------------------------------------------------------------- iterators

RANGE = "core::ops::range::Range"


def element(e, st, it):
    """An unknown element of an iterator: (element, state)."""
    uid = st.fresh()
    if it[0] == "adt" and it[1] == RANGE:
        p = ("call", "element", (e.snap(st, it),), uid)
        lo, _ = e.bounds(st, it[3][0])
        st.facts[("b", p)] = (lo, None)
        st.facts[("c", "Lt", p, it[3][1])] = True
        return p
    return ("call", "element", (e.snap(st, it),), uid)


@bmodel("core::iter::traits::iterator::Iterator::find", "core::iter::traits::iterator::Iterator::any",
        "core::iter::traits::iterator::Iterator::find_map", "core::iter::traits::iterator::Iterator::position")
def b_find(e, st, args, info):
    it = e.deref(st, args[0])
    name = info[3]
    if it[0] != "adt" or it[1] != RANGE:
        if not (it[0] == "call" and last(it[1]) in ("iter", "into_iter")):
            return None
    out = []
    s = st.fork()
    x = element(e, s, it)
    arg = e.alloc(s, x) if name == "find" else x
    for s2, k, v in e.apply(s, args[1], (arg,)):
        if k != "ret":
            out.append((s2, k, v))
        elif name == "find_map":
            for s3, d in e.split(s2, v):
                if d == 1:
                    out.append((s3, "ret", v))
        elif e.assume(s2, v, 1):
            lo = e.ev(st, it[3][0]) if it[0] == "adt" else ()
            if name == "position" and lo and lo[0] == "int":
                out.append((s2, "ret", some(x if lo[1] == 0 else ("bin", "Sub", x, lo))))
            elif name == "position":
                x2 = ("call", "position", (x,), s2.fresh())
                s2.facts[("b", x2)] = (0, None)
                out.append((s2, "ret", some(x2)))
            else:
                out.append((s2, "ret", some(x) if name == "find" else TRUE))
    n = st.fork()
    n.log(Event("none", "exhausted", args, (e.snap(st, it),), None, info[5]["sp"], info[6].path if info[6] else ""))
    out.append((n, "ret", FALSE if name == "any" else none()))
    return out


@bmodel("core::iter::traits::iterator::Iterator::next")
def b_next(e, st, args, info):
    r, p, it = here(e, st, args[0])
    if it[0] == "adt" and it[1] == RANGE:
        lo, hi = it[3]
        c = e.binop(st, "Lt", lo, hi)
        out = []
        a, b = st.fork(), st.fork()
        if e.assume(a, c, 1):
            e.write(a, r, p, ("adt", RANGE, 0, (e.binop(a, "Add", lo, ("int", 1)), hi)))
            out.append((a, "ret", some(lo)))
        if e.assume(b, c, 0):
            out.append((b, "ret", none()))
        return out
    return None


@bmodel("core::iter::traits::collect::IntoIterator::into_iter")
def b_into_iter(e, st, args, info):
    return ret(st, args[0]) if args[0][0] == "adt" and args[0][1] == RANGE else None


@bmodel("core::default::Default::default")
def b_default(e, st, args, info):
    t = info[4][0] if info[4] else ()
    if t and t[0] in ("int", "uint", "bool"):
        return ret(st, ("int", 0))
    if t and t[0] == "adt" and t[1] == OPTION:
        return ret(st, none())
    return None

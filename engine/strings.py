"""Transformers of string and char operations on known text.

Text is known up to an abstract alphabet: the checks give one representative per class of characters the code can tell
apart (see `alphabet`), so a representative stands for every character of its class.
"""
import re
import lin as L
import models as M
from models import model, prefix, under, vloc, A, simp, to_iter, segs_of_iter, slice_of, cut, drain, refto
from facts import thead

WS = " \t\n\x0c\r"
UWS = WS + "\x0b\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def last(t):
    return simp(t["f"].get("res") or t["f"]["path"]).split("::")[-1]


def text(I, st, v):
    """Known text behind a value, or None."""
    x = I.norm(st, v)
    n = 0
    while n < 8:
        n += 1
        if x[0] == "r":
            x = I.norm(st, I.read(st, x[1]))
        elif x[0] == "gd":
            x = I.norm(st, I.read(st, x[3]))
        elif x[0] == "bx":
            x = I.norm(st, st.heap.get(x[1], ("u",)))
        else:
            break
    return x[1] if x[0] == "str" else None


def char(I, st, v):
    x = under(I, st, v)
    return chr(x[1]) if L.isint(x) and not x[2] and 0 <= x[1] <= 0x10ffff else None


def chars_of(I, st, v):
    """Known characters of a list, slice or text; None when not known."""
    t = text(I, st, v)
    if t is not None:
        return t
    s4 = slice_of(I, st, v)
    if s4 is None:
        x = under(I, st, v)
        if x[0] != "vec":
            return None
        segs = I.normsegs(st, x[1])
    else:
        segs = I.normsegs(st, s4[3][1])
        if s4[1][2] or s4[2][2] or not all(g[0] == "one" for g in segs):
            return None
        segs = segs[s4[1][1]:s4[1][1] + s4[2][1]]
    out = []
    for g in segs:
        c = char(I, st, g[1]) if g[0] == "one" else None
        if c is None:
            return None
        out.append(c)
    return "".join(out)


def charvec(s):
    return ("vec", tuple(("one", L.const(ord(c))) for c in s))


def own(vals):
    v = ("vec", tuple(("one", x) for x in vals))
    return ("it", "own", v, L.ZERO, L.const(len(vals)))


def sloc(I, st, v):
    v = I.norm(st, v)
    n = 0
    while v[0] == "r" and n < 6:
        x = I.norm(st, I.read(st, v[1]))
        if x[0] == "str":
            return v[1], x[1]
        v = x
        n += 1
    return None


def lower(s):
    return "".join(c.lower() if "A" <= c <= "Z" else c for c in s)


def upper(s):
    return "".join(c.upper() if "a" <= c <= "z" else c for c in s)


# ------------------------------------------------------------------ chars
ISCHAR = {
    "is_ascii_whitespace": lambda c: c in WS, "is_whitespace": lambda c: c in UWS, "is_ascii": lambda c: ord(c) < 128,
    "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(), "is_ascii_digit": lambda c: c in "0123456789",
    "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(), "is_ascii_uppercase": lambda c: "A" <= c <= "Z",
    "is_ascii_lowercase": lambda c: "a" <= c <= "z", "is_ascii_control": lambda c: ord(c) < 32 or ord(c) == 127,
    "is_ascii_punctuation": lambda c: c in "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~", "is_ascii_hexdigit": lambda c: c in "0123456789abcdefABCDEF",
    "is_ascii_graphic": lambda c: 33 <= ord(c) <= 126,
}


@prefix(r"^(char|u8)::(%s)$" % "|".join(ISCHAR))
def ch_is(I, st, t, a, b):
    c = char(I, st, a[0])
    return [(st, ("b", bool(ISCHAR[last(t)](c))))] if c is not None else None


@prefix(r"^(char|u8)::to_ascii_(lower|upper)case$")
def ch_case(I, st, t, a, b):
    c = char(I, st, a[0])
    if c is None:
        return None
    return [(st, L.const(ord(lower(c) if last(t).startswith("to_ascii_l") else upper(c))))]


@prefix(r"^(char|u8|str|String)::eq_ignore_ascii_case$")
def ch_eqi(I, st, t, a, b):
    x, y = text(I, st, a[0]), text(I, st, a[1])
    if x is None:
        x, y = char(I, st, a[0]), char(I, st, a[1])
    return [(st, ("b", lower(x) == lower(y)))] if x is not None and y is not None else None


# ------------------------------------------------------------------ text -> iterators and back
@model("str::chars", "str::bytes")
def str_chars(I, st, t, a, b):
    s = text(I, st, a[0])
    if s is None:
        return None
    return [(st, own([L.const(x) for x in (s.encode("utf8") if last(t) == "bytes" else map(ord, s))]))]


@model("str::char_indices")
def str_char_indices(I, st, t, a, b):
    s = text(I, st, a[0])
    if s is None:
        return None
    out, n = [], 0
    for c in s:
        out.append(A().tup(L.const(n), L.const(ord(c))))
        n += len(c.encode("utf8"))
    return [(st, own(out))]


@model("str::split_ascii_whitespace", "str::split_whitespace", "str::lines")
def str_split_ws(I, st, t, a, b):
    s = text(I, st, a[0])
    if s is None or last(t) == "lines":
        return None
    ws = WS if "ascii" in last(t) else UWS
    parts, cur = [], ""
    for c in s:
        if c in ws:
            parts.append(cur)
            cur = ""
        else:
            cur += c
    parts.append(cur)
    return [(st, own([("str", p) for p in parts if p]))]


def pattern(I, st, v, t, b):
    """Predicate of a char pattern on known characters: char, text or list of chars; None otherwise."""
    x = under(I, st, v)
    if L.isint(x):
        return (lambda c: ord(c) == x[1]) if not x[2] else None
    cs = chars_of(I, st, v) if x[0] == "vec" or x[0] == "sl" else None
    if cs is not None:
        return lambda c: c in cs
    if x[0] in ("clo", "fn", "s"):
        def f(c):
            r = I.call_value(st.copy(), v, [L.const(ord(c))], t, b)
            vals = {I.norm(s, y) for s, y in r}
            if len(vals) != 1 or list(vals)[0][0] != "b":
                raise A().Unsupported("char predicate not known")
            return list(vals)[0][1]
        return f
    return None


@model("str::split", "str::rsplit", "str::split_terminator")
def str_split(I, st, t, a, b):
    s = text(I, st, a[0])
    if s is None or last(t) != "split":
        return None
    p = text(I, st, a[1])
    if p:
        return [(st, own([("str", x) for x in s.split(p)]))]
    f = pattern(I, st, a[1], t, b)
    if f is None:
        return None
    parts, cur = [], ""
    for c in s:
        if f(c):
            parts.append(cur)
            cur = ""
        else:
            cur += c
    return [(st, own([("str", x) for x in parts + [cur]]))]


@model("str::trim", "str::trim_start", "str::trim_end", "str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "str::trim_left", "str::trim_right")
def str_trim(I, st, t, a, b):
    s = text(I, st, a[0])
    if s is None:
        return None
    k = last(t)
    f = (lambda c: c in UWS) if len(a) == 1 else pattern(I, st, a[1], t, b)
    if f is None:
        return None
    i, j = 0, len(s)
    if "end" not in k and "right" not in k:
        while i < j and f(s[i]):
            i += 1
    if "start" not in k and "left" not in k:
        while j > i and f(s[j - 1]):
            j -= 1
    return [(st, ("str", s[i:j]))]


@model("str::contains", "str::starts_with", "str::ends_with")
def str_has(I, st, t, a, b):
    s = text(I, st, a[0])
    if s is None:
        return None
    p = text(I, st, a[1])
    k = last(t)
    if p is not None:
        return [(st, ("b", {"contains": p in s, "starts_with": s.startswith(p), "ends_with": s.endswith(p)}[k]))]
    f = pattern(I, st, a[1], t, b)
    if f is None:
        return None
    return [(st, ("b", any(f(c) for c in (s if k == "contains" else s[:1] if k == "starts_with" else s[-1:]))))]


@model("str::to_ascii_lowercase", "str::to_ascii_uppercase", "String::to_ascii_lowercase", "str::to_lowercase", "str::to_uppercase")
def str_case(I, st, t, a, b):
    s = text(I, st, a[0])
    if s is None:
        return None
    f = {"to_ascii_lowercase": lower, "to_ascii_uppercase": upper, "to_lowercase": str.lower, "to_uppercase": str.upper}[last(t)]
    return [(st, ("str", f(s)))]


@model("str::len", "String::len")
def str_len(I, st, t, a, b):
    s = text(I, st, a[0])
    return [(st, L.const(len(s.encode("utf8"))))] if s is not None else None


@model("str::as_bytes", "String::as_bytes", "String::into_bytes")
def str_bytes(I, st, t, a, b):
    s = text(I, st, a[0])
    if s is None:
        return None
    return [(st, refto(I, st, ("vec", tuple(("one", L.const(x)) for x in s.encode("utf8")))))]


@model("String::push", "String::push_str", "String as AddAssign::add_assign")
def string_push(I, st, t, a, b):
    lv = sloc(I, st, a[0])
    if lv is None:
        return None
    x = char(I, st, a[1]) if last(t) == "push" else text(I, st, a[1])
    if x is None:
        I.write(st, lv[0], ("s", I.fresh("text", True), "std::string::String"))
        return [(st, A().UNIT)]
    I.write(st, lv[0], ("str", lv[1] + x))
    return [(st, A().UNIT)]


@model("String::clear")
def string_clear(I, st, t, a, b):
    lv = sloc(I, st, a[0])
    if lv is None:
        return None
    I.write(st, lv[0], ("str", ""))
    return [(st, A().UNIT)]


def join_items(I, st, items):
    out = []
    for x in items:
        c = text(I, st, x)
        if c is None:
            c = char(I, st, x)
        if c is None:
            return None
        out.append(c)
    return "".join(out)


_collect = M.MODELS["Iterator::collect"]


@model("Iterator::collect", "String as FromIterator::from_iter")
def collect(I, st, t, a, b):
    h = thead(t["dt"])
    if h not in ("String", "BTreeMap", "HashMap", "HashSet", "BTreeSet"):
        return _collect(I, st, t, a, b)
    v = I.norm(st, a[0])
    if v[0] == "it":
        d = drain(I, st, v, t, b)
    else:
        r = segs_of_iter(I, st, v, t, b)
        d = [(s, [g[1] for g in sg]) for s, sg in r] if r is not None and all(g[0] == "one" for _, sg in r for g in sg) else None
    if d is None:
        return None
    out = []
    for s, xs in d:
        if h == "String":
            txt = join_items(I, s, xs)
            if txt is None:
                return None
            out.append((s, ("str", txt)))
            continue
        keyed, order = {}, []
        for x in xs:
            x = I.norm(s, x)
            isset = h.endswith("Set")
            k = M.ckey(I, s, x if isset else A().fget(x[3], 0)) if isset or x[0] == "ag" else None
            if k is None:
                return None
            if k not in keyed:
                order.append(k)
            keyed[k] = A().tup(x, A().UNIT) if isset else x
        if h.startswith("BTree"):
            order = sorted(order)
        out.append((s, ("vec", tuple(("one", keyed[k]) for k in order))))
    return out


@model("HashMap::iter", "BTreeMap::iter", "BTreeMap as IntoIterator::into_iter", "HashMap as IntoIterator::into_iter", "HashMap::keys", "BTreeMap::keys",
       "HashMap::values", "BTreeMap::values", "HashMap::into_iter", "BTreeMap::into_keys", "BTreeMap::into_values")
def map_iter(I, st, t, a, b):
    key = simp(t["f"].get("res") or t["f"]["path"])
    v = under(I, st, a[0])
    if v[0] != "vec" or not all(g[0] == "one" and I.norm(st, g[1])[0] == "ag" for g in v[1]):
        return None
    byref = "into" not in key
    out = []
    for g in v[1]:
        p = I.norm(st, g[1])
        k, x = A().fget(p[3], 0), A().fget(p[3], 1)
        if byref:
            k, x = refto(I, st, k), refto(I, st, x)
        out.append(k if "keys" in key else x if "values" in key else A().tup(k, x))
    if key.startswith("HashMap"):
        st.ev = st.ev + (("hashiter",),)
    return [(st, own(out))]


@model("[]::join", "[]::concat")
def sl_join(I, st, t, a, b):
    s4 = slice_of(I, st, a[0])
    if s4 is None or not all(g[0] == "one" for g in s4[3][1]):
        return None
    sep = text(I, st, a[1]) if len(a) > 1 else ""
    parts = [text(I, st, g[1]) for g in s4[3][1]]
    if sep is None:
        sep = char(I, st, a[1])
    if thead(t["dt"]) == "String" and sep is not None and all(p is not None for p in parts):
        return [(st, ("str", sep.join(parts)))]
    if thead(t["dt"]) == "Vec":
        ps = [chars_of(I, st, g[1]) for g in s4[3][1]]
        if all(p is not None for p in ps) and sep is not None:
            return [(st, charvec(sep.join(ps)))]
    return None


# ------------------------------------------------------------------ equality of known lists and texts
_eq = [f for rx, f in M.PREFIX if f.__name__ == "part_eq"][0]


def list_eq(I, st, x, y):
    cx, cy = chars_of(I, st, x), chars_of(I, st, y)
    if cx is not None and cy is not None:
        return ("b", cx == cy)
    return None


def eq_first(I, st, t, a, b):
    key = simp(t["f"].get("res") or t["f"]["path"])
    x, y = under(I, st, a[0]), under(I, st, a[1])
    if x[0] in ("vec", "sl") and y[0] in ("vec", "sl"):
        r = list_eq(I, st, a[0], a[1])
        if r is not None:
            return [(st, I.bnot(r) if key.endswith("ne") else r)]
    return _eq(I, st, t, a, b)


M.PREFIX[:] = [(rx, eq_first if f is _eq else f) for rx, f in M.PREFIX]
_contains = M.MODELS["[]::contains"]


@model("[]::contains")
def sl_contains(I, st, t, a, b):
    s4 = slice_of(I, st, a[0])
    if s4 and all(g[0] == "one" for g in s4[3][1]) and s4[1] == L.ZERO and s4[2] == L.const(len(s4[3][1])):
        want = under(I, st, a[1])
        if want[0] in ("vec", "sl"):
            w = chars_of(I, st, a[1])
            have = [chars_of(I, st, refto(I, st, g[1])) for g in s4[3][1]]
            if w is not None and all(h is not None for h in have):
                return [(st, ("b", w in have))]
            return None
        if want[0] == "str":
            have = [text(I, st, g[1]) for g in s4[3][1]]
            if all(h is not None for h in have):
                return [(st, ("b", want[1] in have))]
            return None
    return _contains(I, st, t, a, b)


# ------------------------------------------------------------------ rphtml / htmlentity contracts
NAMED = {'"': "quot", "'": "apos", "<": "lt", ">": "gt", "&": "amp"}
MUST_QUOTE = "\"'<>=`"


@model("Attr::need_quoted_char")
def need_quoted(I, st, t, a, b):
    c = char(I, st, a[0])
    return [(st, ("b", c in WS or c in MUST_QUOTE))] if c is not None else None


@model("entity::encode_char")
def encode_char(I, st, t, a, b):
    c = char(I, st, a[0])
    if c is None:
        return None
    if c not in NAMED:
        return [(st, ("s", I.fresh("entity", True), t["dt"]))]
    return [(st, A().some(("ag", "CharEntity", None, ((0, ("str", "&%s;" % NAMED[c])),)), t["dt"]))]


@model("CharEntity::write_chars")
def write_chars(I, st, t, a, b):
    e = under(I, st, a[0])
    lv = vloc(I, st, a[1])
    if e[0] != "ag" or not lv:
        return None
    M.setvec(I, st, lv[0], lv[1][1] + charvec(e[3][0][1][1])[1])
    return [(st, A().UNIT)]


@model("CharEntity::write_string")
def write_string(I, st, t, a, b):
    e = under(I, st, a[0])
    lv = sloc(I, st, a[1])
    if e[0] != "ag" or lv is None:
        return None
    I.write(st, lv[0], ("str", lv[1] + e[3][0][1][1]))
    return [(st, A().UNIT)]


@model("Attr as Default::default", "AttrData as Default::default")
def attr_default(I, st, t, a, b):
    if "AttrData" in t["dt"]:
        return [(st, ("ag", "rphtml::parser::AttrData", None, ((0, ("vec", ())),)))]
    n = A().none("std::option::Option<?>")
    return [(st, ("ag", "rphtml::parser::Attr", None, ((0, n), (1, n), (2, n), (3, A().FALSE))))]


CHARSETS = {"Html": "<>&", "SpecialChars": "<>&'\"", "HtmlAndNonASCII": "<>&", "SpecialCharsAndNonASCII": "<>&'\"", "NonASCII": "", "All": None}


@model("entity::encode")
def encode(I, st, t, a, b):
    s4 = slice_of(I, st, a[0])
    if s4 is None:
        return None
    bs = []
    for g in I.normsegs(st, s4[3][1]):
        x = I.norm(st, g[1]) if g[0] == "one" else ("u",)
        if not L.isint(x) or x[2]:
            return None
        bs.append(x[1])
    cs, et = under(I, st, a[2]), under(I, st, a[1])
    if cs[0] != "en" or et[0] != "en" or cs[2] not in CHARSETS:
        return None
    txt = bytes(bs).decode("utf8")
    out = ""
    for c in txt:
        wide = "NonASCII" in cs[2] and ord(c) > 255
        if CHARSETS[cs[2]] is None or c in CHARSETS[cs[2]] or wide:
            if c in NAMED and "Named" in et[2]:
                out += "&%s;" % NAMED[c]
            elif et[2] == "Named":
                out += c
            else:
                out += "&#%d;" % ord(c)
        else:
            out += c
    return [(st, ("ag", "EncodedData", None, ((0, ("str", out)),)))]


@model("ICodedDataTrait::to_chars", "EncodedData as ICodedDataTrait::to_chars")
def to_chars(I, st, t, a, b):
    e = under(I, st, a[0])
    if e[0] != "ag" or e[1] != "EncodedData":
        return None
    return [(st, A().ok(charvec(e[3][0][1][1]), t["dt"]))]


@model("parser::is_content_tag")
def is_content_tag(I, st, t, a, b):
    n = chars_of(I, st, a[0])
    if n is None:
        return None
    c = under(I, st, a[1])
    if c[0] == "en" and c[2] == "Some":
        k = I.norm(st, A().fget(c[4], 0))
        if k[0] != "en":
            return None
        want = ("script", "style", "title", "textarea")
        return [(st, ("b", any(n == w or (k[2] == "Lower" and lower(n) == w) for w in want)))]
    return [(st, ("b", n in ("script", "style", "title", "textarea")))] if c[0] == "en" else None


# ------------------------------------------------------------------ texts behind Cow, text ranges, numbers
@model("Cow as Deref::deref", "Cow as AsRef::as_ref", "Cow::into_owned", "Cow as Borrow::borrow")
def cow_deref(I, st, t, a, b):
    x = under(I, st, a[0])
    if x[0] == "en" and x[2] in ("Owned", "Borrowed"):
        v = I.norm(st, A().fget(x[4], 0))
        s = text(I, st, v)
        return [(st, ("str", s) if s is not None else v)]
    s = text(I, st, a[0])
    return [(st, ("str", s))] if s is not None else None


@model("Cow as From::from")
def cow_from(I, st, t, a, b):
    s = text(I, st, a[0])
    return [(st, ("str", s))] if s is not None else None


@model("String as Add::add")
def s_add(I, st, t, a, b):
    x, y = text(I, st, a[0]), text(I, st, a[1])
    return [(st, ("str", x + y))] if x is not None and y is not None else None


@model("String as Index::index", "str as Index::index", "SliceIndex as Index::index")
def s_index(I, st, t, a, b):
    s = text(I, st, a[0])
    r = under(I, st, a[1])
    if s is None or r[0] != "ag":
        return None
    ty = r[1].split("<")[0].split("::")[-1]
    raw = s.encode()

    def num(i):
        v = A().fget(r[3], i)
        v = I.norm(st, v) if v is not None else ("u",)
        return v[1] if L.isint(v) and not v[2] else None
    if ty == "RangeFull":
        lo, hi = 0, len(raw)
    elif ty == "RangeFrom":
        lo, hi = num(0), len(raw)
    elif ty == "RangeTo":
        lo, hi = 0, num(0)
    elif ty == "Range":
        lo, hi = num(0), num(1)
    else:
        return None
    if lo is None or hi is None:
        return None
    try:
        if not 0 <= lo <= hi <= len(raw):
            raise ValueError
        raw[:lo].decode()
        return [(st, ("str", raw[lo:hi].decode()))]
    except (ValueError, UnicodeDecodeError):
        I.panic(st, "text range", b, t["sp"])
        return []


_tostring = M.MODELS.get("T as ToString::to_string")


@model("T as ToString::to_string")
def to_string(I, st, t, a, b):
    ty = (t.get("at") or [""])[0].lstrip("&")
    x = under(I, st, a[0])
    if L.isint(x) and not x[2] and re.match(r"[ui](8|16|32|64|size)$", ty):
        return [(st, ("str", str(x[1])))]
    if ty == "char" and L.isint(x) and not x[2]:
        return [(st, ("str", chr(x[1])))]
    s = text(I, st, a[0])
    if s is not None:
        return [(st, ("str", s))]
    return _tostring(I, st, t, a, b) if _tostring else None


BITS = {"i8": (-2 ** 7, 2 ** 7 - 1), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-2 ** 63, 2 ** 63 - 1), "isize": (-2 ** 63, 2 ** 63 - 1),
        "u8": (0, 255), "u16": (0, 2 ** 16 - 1), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1), "usize": (0, 2 ** 64 - 1)}


@prefix(r"^(str::parse|\w+ as FromStr::from_str)$")
def s_parse(I, st, t, a, b):
    m = re.search(r"Result<(\w+),", t["dt"])
    if not m or m.group(1) not in BITS:
        return None
    s = text(I, st, a[0])
    if s is None:
        return None
    lo, hi = BITS[m.group(1)]
    if re.match(r"[+-]?[0-9]+$" if lo < 0 else r"\+?[0-9]+$", s) and lo <= int(s) <= hi:
        return [(st, A().ok(L.const(int(s)), t["dt"]))]
    return [(st, A().err(("s", "number error", "std::num::ParseIntError"), t["dt"]))]


# ---------------------------------------------------------------- format!
@model("Argument::new_display", "rt::Argument::new_display", "fmt::Argument::new_display")
def fmt_arg(I, st, t, a, b):
    x = text(I, st, a[0])
    if x is None:
        c = under(I, st, a[0])
        ty = t["at"][0].lstrip("&")
        if L.isint(c) and not c[2]:
            x = chr(c[1]) if ty.endswith("char") else str(c[1])
    return None if x is None else [(st, ("ag", "fmt::Argument", None, ((0, ("str", x)),)))]


@model("Arguments::new", "fmt::Arguments::new")
def fmt_args(I, st, t, a, b):
    tpl = I.norm(st, a[0])
    nm = str(tpl[1][0][1]) if tpl[0] == "r" else str(tpl[1])
    row = under(I, st, a[1])
    if not nm.startswith("raw:") or row[0] != "vec" or any(g[0] != "one" for g in row[1]):
        return None
    d = bytes(int(x) for x in nm[4:].strip("[]*").split(","))
    vals = []
    for g in row[1]:
        v = I.norm(st, g[1])
        if v[0] != "ag" or v[1] != "fmt::Argument":
            return None
        vals.append(A().fget(v[3], 0)[1])
    out, i, n = "", 0, 0
    while i < len(d) and d[i]:
        c = d[i]
        i += 1
        if c < 0x80:
            out += d[i:i + c].decode("utf8")
            i += c
        elif c == 0x80:
            ln = d[i] | d[i + 1] << 8
            out += d[i + 2:i + 2 + ln].decode("utf8")
            i += 2 + ln
        elif c == 0xC0 and n < len(vals):
            out += vals[n]
            n += 1
        else:
            return None
    return [(st, ("ag", "fmt::Arguments", None, ((0, ("str", out)),)))]


@model("Arguments::from_str", "fmt::Arguments::from_str")
def fmt_lit(I, st, t, a, b):
    x = text(I, st, a[0])
    return None if x is None else [(st, ("ag", "fmt::Arguments", None, ((0, ("str", x)),)))]


@model("fmt::format")
def fmt_format(I, st, t, a, b):
    v = I.norm(st, a[0])
    return [(st, A().fget(v[3], 0))] if v[0] == "ag" and v[1] == "fmt::Arguments" else None

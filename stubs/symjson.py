"""JSON reader and writer following Python's json module, for values with symbolic parts."""
import json
import re

ESC = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t", "\f": "\\f", "\b": "\\b"}
UNESC = {'"': '"', "\\": "\\", "/": "/", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}
HEX = "0123456789abcdefABCDEF"


def text(s, asc):
    if not hasattr(s, "es"):
        return json.dumps(s, ensure_ascii=asc)
    odd = False
    for c in s:
        odd = odd | (c == '"') | (c == "\\") | (c < " ") | ((c > "~") if asc else False)
    if not odd:
        return '"' + s + '"'
    out = ['"']
    for c in s:
        if c == '"' or c == "\\" or c < " ":
            done = False
            for k, v in ESC.items():
                if c == k:
                    out.append(v)
                    done = True
                    break
            if not done:
                out.append("\\u%04x" % ord(c))
        elif asc and c > "~":
            n = ord(c)
            if n < 0x10000:
                out.append("\\u%04x" % n)
            else:
                n = n - 0x10000
                out.append("\\u%04x\\u%04x" % (0xd800 | ((n >> 10) & 0x3ff), 0xdc00 | (n & 0x3ff)))
        else:
            out.append(c)
    out.append('"')
    return "".join(out)


def dumps(o, *, indent=None, separators=None, ensure_ascii=True, sort_keys=False, default=None, **k):
    if separators is None:
        separators = (", ", ": ") if indent is None else (",", ": ")
    return _dump(o, separators, ensure_ascii, indent, 0, default)


def _dump(o, sep, asc, indent, lvl, default):
    if o is None:
        return "null"
    if isinstance(o, bool):
        return "true" if o else "false"
    if isinstance(o, str):
        return text(o, asc)
    if isinstance(o, int):
        return "%d" % o
    if isinstance(o, float):
        return json.dumps(o)
    nl, end = "", ""
    s = sep[0]
    if indent is not None:
        nl = "\n" + " " * (indent * (lvl + 1))
        end = "\n" + " " * (indent * lvl)
        s = sep[0] + nl
    if isinstance(o, dict):
        if not o:
            return "{}"
        items = []
        for k, v in o.items():
            if not isinstance(k, str):
                if k is True:
                    k = "true"
                elif k is False:
                    k = "false"
                elif k is None:
                    k = "null"
                elif isinstance(k, (int, float)):
                    k = json.dumps(k)
                else:
                    raise TypeError("keys must be str, int, float, bool or None")
            items.append(text(k, asc) + sep[1] + _dump(v, sep, asc, indent, lvl + 1, default))
        return "{" + nl + s.join(items) + end + "}"
    if isinstance(o, (list, tuple)):
        if not o:
            return "[]"
        return "[" + nl + s.join([_dump(v, sep, asc, indent, lvl + 1, default) for v in o]) + end + "]"
    if default is not None:
        return _dump(default(o), sep, asc, indent, lvl, default)
    raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)


def fail(msg, i):
    raise json.JSONDecodeError(msg, "", i)


def ws(s, i):
    n = len(s)
    while i < n and (s[i] == " " or s[i] == "\n" or s[i] == "\r" or s[i] == "\t"):
        i += 1
    return i


def loads(s, **k):
    if isinstance(s, (bytes, bytearray)):
        s = s.decode("utf-8")
    if s.startswith("\ufeff"):
        fail("Unexpected UTF-8 BOM", 0)
    i = ws(s, 0)
    v, i = _load(s, i)
    i = ws(s, i)
    if i != len(s):
        fail("Extra data", i)
    return v


def _str(s, i):
    out = []
    n = len(s)
    while True:
        if i >= n:
            fail("Unterminated string", i)
        j = i
        sym = odd = False
        while j < n:
            c = s[j]
            if hasattr(c, "es"):
                sym = True
                odd = odd | (c == '"') | (c == "\\") | (c < " ")
            elif c == '"' or c == "\\" or c < " ":
                break
            j += 1
        if sym and j < n and not odd:
            out.append(s[i:j])
            i = j
        c = s[i]
        i += 1
        if c == '"':
            return "".join(out), i
        if c == "\\":
            if i >= n:
                fail("Unterminated string", i)
            e = s[i]
            i += 1
            if e == "u":
                u, i = _hex4(s, i)
                if u >= 0xd800 and u <= 0xdbff and s[i:i + 2] == "\\u":
                    w, j = _hex4(s, i + 2)
                    if w >= 0xdc00 and w <= 0xdfff:
                        u = 0x10000 + (((u - 0xd800) << 10) | (w - 0xdc00))
                        i = j
                out.append(chr(u))
                continue
            hit = False
            for k, v in UNESC.items():
                if e == k:
                    out.append(v)
                    hit = True
                    break
            if not hit:
                fail("Invalid escape", i)
            continue
        if c < " ":
            fail("Invalid control character", i)
        out.append(c)


def _hex4(s, i):
    h = s[i:i + 4]
    if len(h) != 4:
        fail("Invalid \\uXXXX escape", i)
    for c in h:
        if not (c in HEX):
            fail("Invalid \\uXXXX escape", i)
    return int(h, 16), i + 4


def digit(s, i):
    return i < len(s) and "0" <= s[i] and s[i] <= "9"


def _load(s, i):
    n = len(s)
    if i >= n:
        fail("Expecting value", i)
    c = s[i]
    if c == '"':
        return _str(s, i + 1)
    if c == "{":
        d = {}
        i = ws(s, i + 1)
        if i < n and s[i] == "}":
            return d, i + 1
        while True:
            if i >= n or s[i] != '"':
                fail("Expecting property name enclosed in double quotes", i)
            k, i = _str(s, i + 1)
            i = ws(s, i)
            if i >= n or s[i] != ":":
                fail("Expecting ':' delimiter", i)
            i = ws(s, i + 1)
            v, i = _load(s, i)
            d[k] = v
            i = ws(s, i)
            if i < n and s[i] == "}":
                return d, i + 1
            if i >= n or s[i] != ",":
                fail("Expecting ',' delimiter", i)
            i = ws(s, i + 1)
    if c == "[":
        out = []
        i = ws(s, i + 1)
        if i < n and s[i] == "]":
            return out, i + 1
        while True:
            v, i = _load(s, i)
            out.append(v)
            i = ws(s, i)
            if i < n and s[i] == "]":
                return out, i + 1
            if i >= n or s[i] != ",":
                fail("Expecting ',' delimiter", i)
            i = ws(s, i + 1)
    for w, v in (("null", None), ("true", True), ("false", False), ("NaN", float("nan")), ("Infinity", float("inf")),
                 ("-Infinity", float("-inf"))):
        if s[i:i + len(w)] == w:
            return v, i + len(w)
    j = i
    if s[j] == "-":
        j += 1
    if not digit(s, j):
        fail("Expecting value", i)
    if s[j] == "0":
        j += 1
    else:
        while digit(s, j):
            j += 1
    k = j
    if k < n and s[k] == "." and digit(s, k + 1):
        k += 1
        while digit(s, k):
            k += 1
    if k < n and (s[k] == "e" or s[k] == "E"):
        m = k + 1
        if m < n and (s[m] == "+" or s[m] == "-"):
            m += 1
        if digit(s, m):
            while digit(s, m):
                m += 1
            k = m
    if k == j:
        return int(s[i:j]), j
    return float(s[i:k]), k

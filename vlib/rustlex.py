"""A small Rust lexer / item finder.

It never interprets code: it only finds token boundaries (so that braces inside
strings, chars and comments do not count), the items of a file and the loops of
a function body.  Everything that reaches the verifier is copied from the
source text between two token boundaries.
"""
import re

class Tok:
    __slots__ = ("k", "s", "a", "b", "m")
    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b, self.m = k, s, a, b, None
    def __repr__(self):
        return "%s:%r" % (self.k, self.s)

class LexError(Exception):
    pass

_ident = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
_num = re.compile(r"[0-9](?:[0-9A-Za-z_]|\.(?=[0-9]))*")
_rawstr = re.compile(r'(?:b|c)?r(#*)"')

def lex(src):
    """-> list of tokens (comments are dropped); m links matching brackets."""
    toks, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1; continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        m = _rawstr.match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.find(end, m.end())
            if j < 0: raise LexError("raw string")
            j += len(end)
            toks.append(Tok("str", src[i:j], i, j)); i = j; continue
        if c == '"' or (c in "bc" and i + 1 < n and src[i + 1] == '"'):
            j = i + (2 if c != '"' else 1)
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            toks.append(Tok("str", src[i:j], i, j)); i = j; continue
        if c == "'" or (c == "b" and i + 1 < n and src[i + 1] == "'"):
            j = i + (2 if c == "b" else 1)
            if c == "'" and j < n and (src[j].isalpha() or src[j] == "_"):
                m = _ident.match(src, j)
                if m and not (m.end() < n and src[m.end()] == "'"):
                    toks.append(Tok("life", src[i:m.end()], i, m.end())); i = m.end(); continue
            while j < n and src[j] != "'":
                j += 2 if src[j] == "\\" else 1
            j += 1
            toks.append(Tok("chr", src[i:j], i, j)); i = j; continue
        m = _ident.match(src, i)
        if m:
            toks.append(Tok("id", m.group(0), i, m.end())); i = m.end(); continue
        m = _num.match(src, i)
        if m:
            toks.append(Tok("num", m.group(0), i, m.end())); i = m.end(); continue
        for p in ("..=", "...", "<<=", ">>=", "->", "=>", "::", "&&", "||", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "%=", "..", "<<", ">>"):
            if src.startswith(p, i):
                toks.append(Tok("p", p, i, i + len(p))); i += len(p); break
        else:
            toks.append(Tok("p", c, i, i + 1)); i += 1
    st = []
    for ix, t in enumerate(toks):
        if t.k == "p" and t.s in "([{":
            st.append(ix)
        elif t.k == "p" and t.s in ")]}":
            if not st: raise LexError("unbalanced %s at %d" % (t.s, t.a))
            o = st.pop()
            toks[o].m, t.m = ix, o
    if st: raise LexError("unbalanced open bracket")
    return toks

class Item:
    """kind, name, and token index ranges [lo,hi) ; body = index of '{' or None."""
    def __init__(self, kind, name, lo, attr_hi, hi, body, toks, src):
        self.kind, self.name, self.lo, self.attr_hi, self.hi, self.body = kind, name, lo, attr_hi, hi, body
        self.toks, self.src = toks, src
    @property
    def a(self): return self.toks[self.lo].a
    @property
    def b(self): return self.toks[self.hi - 1].b
    def text(self): return self.src[self.a:self.b]
    def attrs(self):
        return self.src[self.toks[self.lo].a:self.toks[self.attr_hi].a] if self.attr_hi > self.lo else ""
    def line(self): return self.src.count("\n", 0, self.toks[self.attr_hi].a) + 1
    def children(self):
        if self.body is None: return []
        return items(self.src, self.toks, self.body + 1, self.toks[self.body].m)

_KW = ("fn", "struct", "enum", "impl", "mod", "trait", "use", "const", "static", "type", "macro_rules", "extern", "union")

def _norm(toks, lo, hi):
    return " ".join(t.s for t in toks[lo:hi])

def items(src, toks, lo, hi):
    """Items between token indices lo and hi (one nesting level)."""
    out, i = [], lo
    while i < hi:
        start = i
        while i < hi and toks[i].s == "#":               # attributes
            j = i + 1
            if toks[j].s == "!": j += 1
            i = toks[j].m + 1
        attr_hi = i
        if i >= hi: break
        j = i
        while j < hi and toks[j].s not in _KW:
            if toks[j].s == "pub":
                j += 1
                if j < hi and toks[j].s == "(": j = toks[j].m + 1
                continue
            if toks[j].s in ("unsafe", "async", "default", "auto") or toks[j].k == "str":
                j += 1; continue
            break
        if j < hi and toks[j].s == "const" and j + 1 < hi and toks[j + 1].s in ("fn", "unsafe", "async"):
            while toks[j].s != "fn": j += 1
        if j < hi and toks[j].s == "extern":
            k2 = j + 1
            if toks[k2].k == "str": k2 += 1
            if toks[k2].s == "fn": j = k2
        if j >= hi or toks[j].s not in _KW:
            # macro invocation or unknown: skip to ; or matching brace
            kind, name = "other", _norm(toks, i, min(i + 3, hi))
            while i < hi:
                t = toks[i]
                if t.s == ";": i += 1; break
                if t.k == "p" and t.s == "{":
                    i = t.m + 1; break
                if t.m is not None and t.m > i: i = t.m + 1
                else: i += 1
            out.append(Item(kind, name, start, attr_hi, i, None, toks, src)); continue
        kw = toks[j].s
        body = None
        if kw in ("fn", "struct", "enum", "mod", "trait", "type", "static", "union", "const"):
            name = toks[j + 1].s
            if name == "mut": name = toks[j + 2].s
        elif kw == "macro_rules": name = toks[j + 2].s
        else: name = ""
        k = j + 1
        ang = 0
        while k < hi:
            t = toks[k]
            if t.s == ";" : k += 1; break
            if t.s == "{":
                if kw in ("const", "static", "use"):
                    k = t.m + 1; continue
                body = k; k = t.m + 1
                break
            if t.m is not None and t.m > k: k = t.m + 1
            else: k += 1
        if kw == "impl":
            h0 = j + 1
            if toks[h0].s == "<":                       # drop generics
                d = 0
                while True:
                    s = toks[h0].s
                    if s == "<": d += 1
                    elif s == ">": d -= 1
                    elif s == ">>": d -= 2
                    h0 += 1
                    if d <= 0: break
            h1 = body
            for q in range(h0, body):
                if toks[q].s == "where": h1 = q; break
            name = _norm(toks, h0, h1)
        if kw == "macro_rules" and body is None:
            pass
        out.append(Item(kw, name, start, attr_hi, k, body, toks, src))
        i = k
    return out

class RustFile:
    def __init__(self, path=None, src=None, name=None):
        self.path = name or path
        self.src = src if src is not None else open(path, encoding="utf-8").read()
        self.toks = lex(self.src)
        self.items = items(self.src, self.toks, 0, len(self.toks))

def loops(toks, lo, hi):
    """Loops in token range, in source order: list of (kw index, index of body '{')."""
    out = []
    i = lo
    while i < hi:
        t = toks[i]
        if t.k == "id" and t.s in ("while", "loop", "for"):
            if t.s == "for" and i + 1 < hi and toks[i + 1].s == "<":   # for<'a>
                i += 1; continue
            k = i + 1
            while k < hi and toks[k].s != "{":
                if toks[k].m is not None and toks[k].m > k: k = toks[k].m + 1
                else: k += 1
            if k < hi: out.append((i, k))
        i += 1
    return out

"""Assumed contracts of xml.etree.ElementTree (elements, serialising, parsing), base64, io.BytesIO and os.path.
Parsing a file gives the elements, attributes and texts that were written to it; texts may contain numbers of any extent
(pieces of filem.py)."""
from __future__ import annotations
import os.path
import re
import z3
from .core import *
from .seq import *
from . import builtins_ as B
from . import interp as M
from . import filem as FM
from .libm import _mod, path as mkpath

N = M.Native


class ParseError(SyntaxError):
    pass


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def unesc(s):
    return s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", '"').replace("&apos;", "'").replace("&#10;", "\n").replace("&amp;", "&")


class ElemCls:
    name = "Element"

    def isinst(self, o, t):
        return t is object

    def getattr(self, o, n):
        if n in ("tag", "text", "tail", "attrib"):
            return o.attrs[n]
        f = getattr(self, "m_" + n, None)
        if f is None:
            raise Unsupported("Element." + n)
        return N("Element." + n, lambda *a, **k: f(o, *a, **k))

    def iter(self, o):
        return o.attrs["_ch"]

    def len(self, o):
        return B.length(o.attrs["_ch"]) if hasattr(B, "length") else len(children(o))

    def getitem(self, o, i):
        return B.getitem_(o.attrs["_ch"], i)

    def m_get(self, o, k, default=None):
        return attr(o, k, default)

    def m_set(self, o, k, v):
        B.setitem_(o.attrs["attrib"], k, v)

    def m_append(self, o, e):
        c = o.attrs["_ch"]
        c.set("seq", c.seq.append(e))

    def m_insert(self, o, i, e):
        ch = children(o)
        ch.insert(i, e)
        o.attrs["_ch"].set("seq", Seq.of(*ch))

    def m_find(self, o, p):
        r = find(o, p)
        return r[0] if r else None

    def m_findall(self, o, p):
        return PList(Seq.of(*find(o, p)))

    def m_iter(self, o, tag=None):
        return PList(Seq.of(*[e for e in walk(o) if tag is None or e.attrs["tag"] == tag]))

    def m_clear(self, o):
        o.attrs["attrib"], o.attrs["text"], o.attrs["tail"], o.attrs["_ch"] = PDict(Seq()), None, None, PList(Seq())

    def m_keys(self, o):
        return B.getattr_(o.attrs["attrib"], "keys").fn()

    def m_items(self, o):
        return B.getattr_(o.attrs["attrib"], "items").fn()


ELEM = ElemCls()


def children(o):
    c = o.attrs["_ch"].seq.concrete()
    if c is None:
        raise Unsupported("an XML element with a symbolic number of children")
    return list(c)


def walk(o):
    yield o
    for c in children(o):
        yield from walk(c)


def attr(o, k, default=None):
    ents = M.dict_ents(o.attrs["attrib"]).concrete()
    if ents is None:
        raise Unsupported("attributes of an XML element")
    for a, v in ents:
        if a == k:
            return v
    return default


def find(o, p):
    if not isinstance(p, str) or has_tok(p):
        raise Unsupported("symbolic XPath")
    cur = [o]
    deep = False
    if p.startswith(".//"):
        deep, p = True, p[3:]
    for step in p.split("/"):
        m = re.fullmatch(r"([\w:{}.*-]+)((?:\[.*?\])*)", step)
        if not m:
            raise Unsupported("XPath " + p)
        tag, preds = m.group(1), re.findall(r"\[(.*?)\]", m.group(2))
        nxt = []
        for c in cur:
            cand = [e for e in walk(c) if e is not c] if deep else children(c)
            cand = [e for e in cand if tag == "*" or e.attrs["tag"] == tag]
            for q in preds:
                a = re.fullmatch(r"@([\w:]+)='(.*)'", q)
                if a:
                    cand = [e for e in cand if has_attr(e, a.group(1), a.group(2))]
                elif q.isdigit():
                    i = int(q) - 1
                    if deep:
                        raise Unsupported("XPath " + p)
                    cand = cand[i:i + 1]
                else:
                    raise Unsupported("XPath " + p)
            nxt += cand
        cur, deep = nxt, False
    return cur


def has_attr(e, k, v):
    x = attr(e, k)
    if x is None:
        return False
    if not isinstance(x, str) or has_tok(x):
        if v == "":
            return False
        raise Unsupported("XPath over symbolic attributes")
    return x == v


def element(tag, attrib=None, **extra):
    d = PDict(Seq.of(*([(k, v) for k, v in (M.dict_ents(attrib).concrete() or [])] if attrib is not None else []), *extra.items()))
    return Obj(ELEM, {"tag": tag, "text": None, "tail": None, "attrib": d, "_ch": PList()})


def subelement(parent, tag, attrib=None, **extra):
    e = element(tag, attrib, **extra)
    ELEM.m_append(parent, e)
    return e


# ----------------------------------------------------------------------------- serialising
def str_pieces(v, what):
    v = M.force(v)
    if isinstance(v, (str, SStr, FM.SText)):
        return FM.pieces_of(v)
    raise_py(TypeError, f"cannot serialize {what}")


def serialize(e):
    tag = e.attrs["tag"]
    if not isinstance(tag, str) or has_tok(tag):
        raise Unsupported("symbolic tag")
    out = ["<" + tag]
    if tag.startswith("{"):
        # a qualified name: any prefix, bound in place
        uri, local = tag[1:].split("}")
        tag = "ns0:" + local
        out = [f'<{tag} xmlns:ns0="{uri}"']
    for k, v in M.dict_ents(e.attrs["attrib"]).concrete():
        out.append(f" {k}=\"")
        v = M.force(v)
        if isinstance(v, PDict):
            # ElementTree looks for special characters among the keys and prints the dictionary as it is
            kv = M.dict_ents(v).concrete()
            if kv is None or not all(isinstance(x, str) and not has_tok(x) for y in kv for x in y) or any(a in "&<>\"\r\n\t" for a, _ in kv):
                raise Unsupported("a dictionary as an attribute")
            out.append(repr(dict(kv)) + '"')
            continue
        for p in str_pieces(v, k):
            if not isinstance(p, str):
                raise Unsupported("long text as an attribute")
            out.append(esc(p).replace('"', "&quot;").replace("\n", "&#10;"))
        out.append('"')
    ch = e.attrs["_ch"].seq.segs
    t = M.force(e.attrs["text"])
    ps = FM.merge(str_pieces(t, "text")) if t is not None else []
    if not ps and not ch:
        return FM.merge(out + [" />"])
    if not ps and e.attrs["_ch"].seq.concrete() is None and CTX.branch(e.attrs["_ch"].seq.length() == 0):
        return FM.merge(out + [" />"])
    out.append(">")
    out += [esc(p) if isinstance(p, str) else p for p in ps]
    for g in ch:
        if isinstance(g, Items):
            for c in g.xs:
                out += serialize(c)
        elif g.cond is None and not g.flat:
            out.append(FM.Rows(g.n, lambda k, g=g: serialize(g.fn(k))))
        else:
            raise Unsupported("an XML element with a symbolic number of children")
    out.append(f"</{tag}>")
    return FM.merge(out)


class TreeCls:
    name = "ElementTree"

    def isinst(self, o, t):
        return t is object

    def getattr(self, o, n):
        if n == "getroot":
            return N("getroot", lambda: o.attrs["root"])
        if n == "write":
            return N("ElementTree.write", lambda f, *a, **k: write(o, f))
        if n == "find":
            return N("find", lambda p: ELEM.m_find(o.attrs["root"], p))
        raise Unsupported("ElementTree." + n)


TREE = TreeCls()


def write(o, f):
    f = M.force(f)
    own = not isinstance(f, FM.VFile)
    if own:
        f = FM.VFile(f, "w")
    FM.put(f, serialize(o.attrs["root"]))


def elementtree(root=None, **k):
    return Obj(TREE, {"root": root})


# ----------------------------------------------------------------------------- parsing
BASE = 0xf0000
NAME = r"[A-Za-z_][\w.\-]*(?::[A-Za-z_][\w.\-]*)?"


def elements(p):
    """rows of elements"""
    if not isinstance(p, FM.Rows):
        return False
    r = p.fn(loopvar("x"))
    return bool(r) and isinstance(r[0], str) and r[0].startswith("<")


def parse_pieces(ps):
    objs = []
    s = ""
    for p in ps:
        if isinstance(p, str):
            s += p
        elif isinstance(p, (FM.Bin, FM.RecBin)):
            raise PyExc(ParseError("not well-formed (invalid token)"))
        else:
            objs.append(p)
            s += chr(BASE + len(objs) - 1)

    def txt(t):
        out = []
        for part in re.split("([\U000f0000-\U000ffffd])", unesc(t)):
            if part and ord(part[0]) >= BASE:
                out.append(objs[ord(part[0]) - BASE])
            elif part:
                out.append(part)
        return FM.text(out) if out else None
    pos = 0
    stack, root = [], None
    buf = ""

    def flush():
        nonlocal buf
        if buf and stack:
            e = stack[-1][0]
            parts = re.split("([\U000f0000-\U000ffffd])", buf)
            rows = [i for i, x in enumerate(parts) if x and ord(x[0]) >= BASE and elements(objs[ord(x[0]) - BASE])]
            if rows:
                if any(x.strip() for i, x in enumerate(parts) if i not in rows) or stack[-1][2].get(""):
                    raise Unsupported("rows of elements between texts")
                for i in rows:
                    r = objs[ord(parts[i]) - BASE]
                    e.attrs["_ch"] = PList(Seq(e.attrs["_ch"].seq.segs + [Gen(r.n, lambda k, r=r: parse_pieces(r.fn(k)))]))
            elif not e.attrs["_ch"].seq.segs:
                e.attrs["text"] = txt(buf)
        elif buf.strip():
            raise PyExc(ParseError("text outside of the document"))
        buf = ""
    while pos < len(s):
        if s.startswith("<?", pos) or s.startswith("<!--", pos) or s.startswith("<!DOCTYPE", pos):
            end = {"?": "?>", "-": "-->", "D": ">"}[s[pos + 1] if s[pos + 1] == "?" else s[pos + 2]]
            i = s.find(end, pos)
            if i < 0:
                raise PyExc(ParseError("unclosed token"))
            pos = i + len(end)
            continue
        if s[pos] != "<":
            i = s.find("<", pos)
            i = len(s) if i < 0 else i
            buf += s[pos:i]
            pos = i
            continue
        m = re.compile(rf"</({NAME})\s*>").match(s, pos)
        if m:
            flush()
            if not stack or stack[-1][1] != m.group(1):
                raise PyExc(ParseError("mismatched tag"))
            stack.pop()
            pos = m.end()
            continue
        m = re.compile(rf"<({NAME})((?:\s+{NAME}\s*=\s*(?:\"[^\"<]*\"|'[^'<]*'))*)\s*(/?)>").match(s, pos)
        if not m:
            raise PyExc(ParseError("not well-formed (invalid token)"))
        flush()
        if root is not None and not stack:
            raise PyExc(ParseError("junk after document element"))
        ats = re.findall(rf"({NAME})\s*=\s*(?:\"([^\"]*)\"|'([^']*)')", m.group(2))
        ns = dict(stack[-1][2]) if stack else {}
        at = []
        for k, a, b in ats:
            v = unesc(a or b)
            if k == "xmlns" or k.startswith("xmlns:"):
                ns[k[6:]] = v
                continue
            if k in [x for x, _ in at]:
                raise PyExc(ParseError("duplicate attribute"))
            if any(ord(ch) >= BASE for ch in v):
                raise Unsupported("long text as an attribute")
            at.append((k, v))

        def full(t, default):
            if ":" in t:
                p, l = t.split(":")
                if p == "xml":
                    return "{http://www.w3.org/XML/1998/namespace}" + l
                if p not in ns:
                    raise PyExc(ParseError("unbound prefix"))
                return "{" + ns[p] + "}" + l
            return "{" + ns[""] + "}" + t if default and ns.get("") else t
        e = element(full(m.group(1), True))
        e.attrs["attrib"] = PDict(Seq.of(*[(full(k, False), v) for k, v in at]))
        if stack:
            p = stack[-1][0]
            p.attrs["_ch"] = PList(p.attrs["_ch"].seq.append(e))
        else:
            root = e
        if not m.group(3):
            stack.append((e, m.group(1), ns))
        pos = m.end()
    flush()
    if stack or root is None:
        raise PyExc(ParseError("no element found"))
    return root


def parse(f, parser=None):
    f = M.force(f)
    if not isinstance(f, FM.VFile):
        f = FM.VFile(f, "r")
    return Obj(TREE, {"root": parse_pieces(FM.rest_all(f))})


def partial(e):
    """an element whose content has not been read yet"""
    e.attrs["_ch"] = None
    return e


def events(ps, stack, root):
    """the start and end events of a text of whole tags; stack: open elements"""
    segs = []
    s = ""

    def tags():
        nonlocal s
        for m in re.finditer(r"<[^>]*>|[^<]+", s):
            t = m.group(0)
            if t.startswith(("<?", "<!")):
                continue
            if t[0] != "<":
                if t.strip() and has_tok(t):
                    raise Unsupported("iterparse: text content")
                continue
            c = re.fullmatch(rf"</({NAME})\s*>", t)
            if c:
                if not stack or stack[-1] is None or stack[-1].attrs["tag"] != c.group(1):
                    raise PyExc(ParseError("mismatched tag"))
                segs.append(Items([("end", stack.pop())]))
                continue
            o = re.fullmatch(rf"<({NAME})((?:\s+{NAME}\s*=\s*(?:\"[^\"<]*\"|'[^'<]*'))*)\s*(/?)>", t)
            if not o:
                raise PyExc(ParseError("not well-formed (invalid token)"))
            if root and not stack:
                raise PyExc(ParseError("junk after document element"))
            ats = [(k, unesc(a or b)) for k, a, b in re.findall(rf"({NAME})\s*=\s*(?:\"([^\"]*)\"|'([^']*)')", o.group(2))]
            if len({k for k, _ in ats}) < len(ats):
                raise PyExc(ParseError("duplicate attribute"))
            if ":" in o.group(1) or any(k == "xmlns" or ":" in k for k, _ in ats):
                raise Unsupported("iterparse: a namespace")
            e = element(o.group(1))
            e.attrs["attrib"] = PDict(Seq.of(*ats))
            root.append(1)
            segs.append(Items([("start", e)]))
            if o.group(3):
                segs.append(Items([("end", e)]))
            else:
                stack.append(partial(e))
        s = ""
    for p in ps:
        if isinstance(p, str):
            s += p
        elif isinstance(p, FM.Rows):
            if s.rfind("<") > s.rfind(">"):
                raise Unsupported("iterparse: rows within a tag")
            tags()

            if not stack:
                raise Unsupported("iterparse: rows outside of the document")

            def one(k, p=p):
                st = [None]
                r = _events(p.fn(k), st, [1])
                if len(st) != 1:
                    raise Unsupported("iterparse: rows that do not close what they open")
                return Seq(r)
            one(loopvar("x"))
            segs.append(Gen(p.n, one, flat=True))
        else:
            raise Unsupported("iterparse: " + type(p).__name__)
    tags()
    return segs


def iterparse(f, events=None, parser=None):
    ev = M.force(events) if events is not None else ("end",)
    ev = [str(x) for x in (ev if isinstance(ev, tuple) else ev.seq.concrete())]
    if not set(ev) <= {"start", "end"}:
        raise Unsupported("iterparse: events")
    f = M.force(f)
    if not isinstance(f, FM.VFile):
        f = FM.VFile(f, "r")
    stack, root = [], []
    segs = _events(FM.rest_all(f), stack, root)
    if stack or not root:
        raise PyExc(ParseError("no element found"))

    def keep(segs):
        return [Items([x for x in g.xs if x[0] in ev]) if isinstance(g, Items) else Gen(g.n, lambda k, g=g: Seq(keep(g.fn(k).segs)), flat=True) for g in segs]
    return PList(Seq(keep(segs)))


_events = events


def fromstring(t, parser=None):
    return parse_pieces(FM.pieces_of(t))


ET = dict(Element=N("ET.Element", element), SubElement=N("ET.SubElement", subelement), ElementTree=N("ET.ElementTree", elementtree), parse=N("ET.parse", parse), fromstring=N("ET.fromstring", fromstring), iterparse=N("ET.iterparse", iterparse),
          XMLParser=N("ET.XMLParser", lambda *a, **k: None), ParseError=ParseError, register_namespace=N("ET.register_namespace", lambda *a: None),
          tostring=N("ET.tostring", lambda e, *a, **k: FM.text(serialize(e), True)))
_et = _mod("xml.etree.ElementTree", **ET)
_ete = _mod("xml.etree", ElementTree=_et)
def _escape(t, more=None):
    """the text of a value as it stands in the file; symbolic names hold no character that is special in XML (assumed)"""
    t = M.force(t)
    if isinstance(t, str):
        from xml.sax.saxutils import escape
        return escape(t, dict(kv for seg in more.ents.segs for kv in seg.xs) if more is not None else {})
    return t


_mod("xml.sax.saxutils", escape=N("xml.sax.saxutils.escape", _escape))
_mod("xml", etree=_ete, sax=_mod("xml.sax", saxutils=None))


# ----------------------------------------------------------------------------- base64
class B64:
    """the base64 text of the pieces (no white space)"""
    def __init__(self, ps):
        self.ps = list(ps)

    def _subst(self, pairs):
        return B64([FM.psub(p, pairs) for p in self.ps])


def b64encode(v):
    ps = FM.pieces_of(v)
    if all(isinstance(p, str) and not has_tok(p) for p in ps):
        import base64
        return base64.b64encode("".join(ps).encode("latin-1"))
    return FM.text([B64(ps)], True)


def b64decode(v, *a, **k):
    ps = FM.pieces_of(v)
    if all(isinstance(p, str) and not has_tok(p) for p in ps):
        import base64
        return base64.b64decode("".join(ps))
    if isinstance(ps[0], B64):
        if len(ps) > 1:
            # decoding stops at the padding of the first text, if it has one
            n = FM.nbytes(ps[0].ps)
            if not (z3.is_int_value(n) and n.as_long() % 3):
                raise Unsupported("base64 of several texts")
        return FM.text(ps[0].ps, True)
    raise Unsupported("base64 of other text")


for _c in ("zlib", "lzma", "bz2"):
    _mod(_c, compress=N(_c + ".compress", FM.compress(_c)), decompress=N(_c + ".decompress", FM.decompress(_c)))
_mod("base64", b64encode=N("base64.b64encode", b64encode), b64decode=N("base64.b64decode", b64decode))


# ----------------------------------------------------------------------------- io, os.path
class MemCls(FM.FileCls):
    name = "BytesIO"

    def f_getvalue(self, o):
        return FM.text(FM.normalize(o.out.seq), o.binary)


MEM = MemCls()


def mem(binary):
    def new(*a):
        if a:
            return FM.whole(FM.pieces_of(a[0]), binary)
        o = FM.VFile.__new__(FM.VFile)
        Obj.__init__(o, MEM)
        o.path, o.mode, o.binary, o.writing = "", "wb" if binary else "w", binary, True
        o.out, o.ps = PList(), None
        return o
    return new


_mod("io", BytesIO=N("io.BytesIO", mem(True)), StringIO=N("io.StringIO", mem(False)))


def listdir(d="."):
    d = M.force(d)
    d = str(d.attrs["_c"]) if isinstance(d, Obj) and "_c" in d.attrs else d
    if not isinstance(d, str) or has_tok(d):
        raise Unsupported("os.listdir of an unknown path")
    CTX.assumptions.add("the directory of a file that is read holds no other files than the ones that the writer made")
    out = []
    for f in FM.fs().files:
        if not f.startswith("str:") or has_tok(f):
            raise Unsupported("os.listdir")
        f = f[4:]
        if os.path.normpath(os.path.dirname(f) or ".") == os.path.normpath(d or "."):
            out.append(os.path.basename(f))
    return PList(Seq.of(*out))


class MatchCls:
    name = "re.Match"

    def isinst(self, o, t):
        return t is object

    def truth(self, o):
        return True

    def getattr(self, o, n):
        m = o.attrs["m"]
        if n in ("group", "start", "end"):
            return N(n, lambda *a: getattr(m, n)(*a))
        if n == "groups":
            return N(n, lambda *a: tuple(m.groups(*a)))
        raise Unsupported("re.Match." + n)


MATCH = MatchCls()


def re_(fn):
    def f(pat, t):
        pat, t = M.force(pat), M.force(t)
        if not isinstance(pat, str) or not isinstance(t, str) or has_tok(pat) or has_tok(t):
            raise Unsupported("a regular expression on an unknown text")
        m = fn(pat, t)
        return None if m is None else Obj(MATCH, {"m": m})
    return f


def re_escape(t):
    t = M.force(t)
    if not isinstance(t, str) or has_tok(t):
        raise Unsupported("a regular expression on an unknown text")
    return re.escape(t)


def ospath(fn):
    def f(p, *a):
        p = M.force(p)
        if isinstance(p, Obj) and "_c" in p.attrs:
            p = str(p.attrs["_c"])
        if not isinstance(p, str) or has_tok(p):
            raise Unsupported("os.path of an unknown path")
        return fn(p, *a)
    return f


_osp = _mod("os.path", splitext=N("os.path.splitext", ospath(os.path.splitext)), basename=N("os.path.basename", ospath(os.path.basename)), join=N("os.path.join", ospath(os.path.join)), dirname=N("os.path.dirname", ospath(os.path.dirname)))
_mod("os", path=_osp, listdir=N("os.listdir", listdir))
if "re" not in M.EXTERNAL:
    _mod("re", fullmatch=N("re.fullmatch", re_(re.fullmatch)), match=N("re.match", re_(re.match)), search=N("re.search", re_(re.search)), escape=N("re.escape", re_escape))
import sys as _sys   # noqa: E402
M.EXTERNAL["sys"].vars["byteorder"] = _sys.byteorder

"""Assumed contracts of files (open, readline, read, write, seek), of numpy's and struct's reading and writing of numbers:
a file holds what was written to it, as pieces of text and of raw numbers of any extent.

pieces:  str            text; placeholders stand for the text of a number or of a string without white space
         Rows(n, fn)    the texts fn(0), ..., fn(n-1) one after the other
         Num(arr, sep)  the elements of an array as text, separated by sep
         Bin(arr)       the elements of an array as raw bytes of its dtype
"""
from __future__ import annotations
import re
import z3
import numpy as rnp
from .core import *
from .seq import *
from . import seq as S
from . import arr as A
from .arr import SArr
from . import builtins_ as B
from . import interp as M
from . import npm

N = M.Native
ZERO = z3.IntVal(0)


class Rows:
    def __init__(self, n, fn):
        self.n, self.fn = ex(n), fn          # fn: index -> [pieces]

    def _subst(self, pairs):
        return Rows(z3.substitute(self.n, *pairs), lambda k: S._sub_fn(lambda q: SText(self.fn(q)), k, pairs).ps)


class Num:
    def __init__(self, arr, sep, spec):
        self.arr, self.sep, self.spec = arr, sep, spec

    def _subst(self, pairs):
        return Num(self.arr._subst(pairs), self.sep, self.spec)


class Joined:
    """texts separated by sep"""
    def __init__(self, n, fn, sep):
        self.n, self.fn, self.sep = ex(n), fn, sep

    def _subst(self, pairs):
        return Joined(z3.substitute(self.n, *pairs), lambda k: S._sub_fn(lambda q: SText(self.fn(q)), k, pairs).ps, self.sep)


class Bin:
    def __init__(self, arr, dt=None):
        self.arr = arr
        self.dt = rnp.dtype(dt) if dt is not None else arr.dt

    def _subst(self, pairs):
        return Bin(self.arr._subst(pairs), self.dt)


class RecBin:
    """n records of raw numbers: fn(i, c) is column c of record i, dts the layout"""
    def __init__(self, n, dts, fn):
        self.n, self.dts, self.fn = ex(n), list(dts), fn
        self.itemsize = sum(d.itemsize for d in dts)

    def _subst(self, pairs):
        return RecBin(z3.substitute(self.n, *pairs), self.dts, lambda i, c: S._sub_fn(lambda q: mk(self.fn(q, c)), i, pairs).e)


def flat_layout(dt):
    """scalar dtypes of a structured dtype in order, with the field and position of each"""
    out = []
    for name in dt.names:
        f = dt.fields[name][0]
        sub, shape = (f.subdtype if f.subdtype is not None else (f, ()))
        if sub.fields is not None or dt.itemsize != sum(dt.fields[m][0].itemsize for m in dt.names):
            raise Unsupported("nested or padded record")
        for ix in rnp.ndindex(*shape):
            out.append((sub, name, ix))
    return out


class RecCls:
    """arrays of records (structured dtypes): one array per field"""
    name = "recarray"

    def isinst(self, o, t):
        return issubclass(rnp.ndarray, t)

    def getattr(self, o, n):
        if n == "dtype":
            return o.dt
        if n == "size":
            return mk(ex(o.n))
        if n == "shape":
            return (mk(ex(o.n)),)
        if n == "ndim":
            return 1
        if n == "tofile":
            return N("tofile", lambda f, *a: put(M.force(f), rec_pieces(o)))
        if n == "tobytes":
            return N("tobytes", lambda *a, **k: text(rec_pieces(o), True))
        if n == "view":
            return N("view", lambda dt: rec_view(o, B.to_dtype(dt)))
        if n == "copy":
            return N("copy", lambda *a, **k: RecArr(o.n, o.dt, {k: v.copy() for k, v in o.fs.items()}))
        if n in o.fs and n.isidentifier():
            return o.fs[n]
        raise Unsupported("record array ." + n)

    def getitem(self, o, ix):
        if isinstance(ix, str):
            if ix not in o.fs:
                raise_py(ValueError, "no field of name " + ix)
            return o.fs[ix]
        if is_num(ix):
            return tuple(f.scalar(ex(ix)) if f.ndim == 1 else A.getitem(f, (ix,)) for f in o.fs.values())
        raise Unsupported("index into a record array")

    def setitem(self, o, ix, v):
        if not isinstance(ix, str):
            raise Unsupported("index into a record array")
        if ix not in o.fs:
            raise_py(ValueError, "no field of name " + ix)
        A.setitem(o.fs[ix], (Ellipsis,), v)

    def len(self, o):
        return mk(ex(o.n))

    def iter(self, o):
        return Seq([Gen(ex(o.n), lambda k: tuple(f.scalar(k) if f.ndim == 1 else A.getitem(f, (mk(k),)) for f in o.fs.values()))])

    def asarray(self, o):
        return o


REC = RecCls()


class RecArr(Obj):
    def __init__(self, n, dt, fs):
        super().__init__(REC)
        self.n, self.dt, self.fs = A.sh(z3.simplify(ex(n))), dt, fs

    def _subst(self, pairs):
        return RecArr(z3.substitute(ex(self.n), *pairs), self.dt, {k: v._subst(pairs) for k, v in self.fs.items()})


def rec_new(n, dt, get):
    """get(layout column) -> function of the record index"""
    fs = {}
    cols = {}
    for c, (d, name, ix) in enumerate(flat_layout(dt)):
        cols.setdefault(name, []).append((ix, d, get(c)))
    for name in dt.names:
        f = dt.fields[name][0]
        sub, shape = (f.subdtype if f.subdtype is not None else (f, ()))
        cc = cols[name]

        def el(i, *ix, cc=cc):
            r = None
            for jx, d, g in reversed(cc):
                v = g(i)
                r = v if r is None else z3.If(z3.And(*[x == y for x, y in zip(ix, jx)]) if ix else z3.BoolVal(True), v, r)
            return z3.simplify(r) if len(cc) > 1 else r
        fs[name] = SArr.make([n] + list(shape), el, sub)
    return RecArr(n, dt, fs)


def rec_pieces(o):
    lay = flat_layout(o.dt)
    snaps = {k: v.snap() for k, v in o.fs.items()}
    dts = [d for d, _, _ in lay]
    fn = lambda i, c: snaps[lay[c][1]](i, *[z3.IntVal(x) for x in lay[c][2]])
    if isinstance(o.n, int) and o.n <= 4:
        return merge_bin([Bin(SArr.make([1], lambda i, r=r, c=c: fn(z3.IntVal(r), c), d), d) for r in range(o.n) for c, d in enumerate(dts)])
    return [recbin(o.n, dts, fn)]


def recbin(n, dts, fn):
    if all(d == dts[0] for d in dts):
        w = len(dts)
        return Bin(SArr.make([n, w], lambda i, j: pick([fn(i, c) for c in range(w)], j), dts[0]), dts[0])
    return RecBin(n, dts, fn)


def rec_view(o, dt):
    lay = flat_layout(o.dt)
    if any(reinterpret_dt(d, dt) for d, _, _ in lay):
        raise Unsupported("view of records of several kinds")
    w = len(lay)
    a = SArr.make([o.n, w], lambda i, j: pick([o.fs[m].elem(i, *[z3.IntVal(x) for x in ix]) for _, m, ix in lay], j), dt)
    return A._flat2(a, w, [A.sh(z3.simplify(ex(o.n) * w))])


def np_empty(shape, dtype=float, order=None):
    dt = B.to_dtype(dtype)
    if dt.fields is None:
        return npm.empty(shape, dtype, order)
    shp = npm.shape_of(shape)
    if len(shp) != 1:
        raise Unsupported("shape of a record array")
    fs = {}
    for name in dt.names:
        f = dt.fields[name][0]
        sub, sh = (f.subdtype if f.subdtype is not None else (f, ()))
        u = CTX.fresh_fun("uninit", [IS] * (1 + len(sh)), A.zconst_sort(sub))
        fs[name] = SArr.make(list(shp) + list(sh), lambda *i, u=u: u(*i), sub)
    return RecArr(shp[0], dt, fs)


def rec_fromarrays(arrs, dtype=None, names=None):
    xs = M.iter_seq(arrs).concrete()
    if xs is None or dtype is not None or names is not None:
        raise Unsupported("np.rec.fromarrays")
    xs = [npm.asarray(x) for x in xs]
    n = xs[0].shape[0]
    for x in xs:
        if x.ndim != 1:
            raise Unsupported("np.rec.fromarrays")
        if not A.eqdim(x.shape[0], n) and not CTX.branch(ex(x.shape[0]) == ex(n)):
            raise_py(ValueError, "mismatch in shape")
    dt = rnp.dtype([(f"f{i}", x.dt) for i, x in enumerate(xs)])
    return RecArr(n, dt, {f"f{i}": x.copy() for i, x in enumerate(xs)})


def psub(p, pairs):
    return subst_text(p, pairs) if isinstance(p, str) else p._subst(pairs)


class TextCls:
    name = "text"

    def isinst(self, o, t):
        return issubclass(bytes if o.binary else str, t)

    def getattr(self, o, n):
        return N("text." + n, lambda *a, **k: text_call(o, n, a, k))

    def binop(self, op, a, b):
        if op == "add":
            return text(pieces_of(a) + pieces_of(b), a.binary)
        raise Unsupported("operator on text")

    def rbinop(self, op, a, b):
        if op == "add":
            return text(pieces_of(a) + pieces_of(b), b.binary)
        raise Unsupported("operator on text")

    def len(self, o):
        return mk(nbytes(o.ps))

    def text(self, o):
        if len(o.ps) == 1 and isinstance(o.ps[0], str):
            return o.ps[0]
        return mk(CTX.fresh("text", SS))

    def iter(self, o):
        raise Unsupported("iteration over text")

    def getitem(self, o, ix):
        if not isinstance(ix, slice) or ix.step not in (None, 1):
            raise Unsupported("part of a text")
        if len(o.ps) == 1 and isinstance(o.ps[0], (Bin, Rows)):
            r = text_part(o.ps[0], ix)
            if r is not None:
                return text(r, o.binary)
        f = whole(o.ps, o.binary)
        start = M.force(ix.start) if ix.start is not None else 0
        stop = M.force(ix.stop) if ix.stop is not None else None
        if not CTX.implied(ex(start) >= 0) or stop is not None and not CTX.implied(ex(stop) >= ex(start)):
            raise Unsupported("part of a text")
        read_n(f, start)
        return text(rest(f) if stop is None else read_n(f, mk(z3.simplify(ex(stop) - ex(start)))), o.binary)


TEXT = TextCls()


def text_part(p, ix):
    """[start:stop] of raw numbers (whole elements only), or of compressed texts one after the other (one of them)"""
    start = ex(M.force(ix.start)) if ix.start is not None else ZERO
    stop = ex(M.force(ix.stop)) if ix.stop is not None else None
    if isinstance(p, Bin):
        w, size = p.dt.itemsize, p.arr.size()
        if not CTX.implied(z3.And(start >= 0, start % w == 0, start <= size * w)):
            return None
        a = z3.simplify(start / w)
        b = size
        if stop is not None:
            if not CTX.implied(z3.And(stop >= start, stop % w == 0)):
                return None
            b = z3.simplify(stop / w)
            if not CTX.implied(b <= size):
                b = z3.If(b <= size, b, size)
        return [bin_slice(p, mk(a), z3.simplify(b - a))]
    k = loopvar("k")
    row = p.fn(k)
    if stop is None or len(row) != 1 or not isinstance(row[0], Z):
        return None
    at = lambda j: S.prefix_sum(k, nbytes(row), j)
    cands = [c for c in S.free_consts(start).values() if c.decl().name() in CTX.loopvars and c.sort() == IS] + [ZERO]
    for r in cands:
        if all(CTX.prove(g, timeout=4000)[0] == "discharged" for g in (z3.And(0 <= r, r < p.n), start == at(r), stop == at(z3.simplify(r + 1)))):
            return p.fn(r)
    if len(cands) == 2:
        from . import obl
        r = cands[0]
        obl.ensure("compressed blocks are told apart where they end", z3.And(start == at(r), stop == at(z3.simplify(r + 1))))
    return None


class Z:
    """compressed pieces; the length is some function of what is compressed"""
    def __init__(self, codec, ps, n):
        self.codec, self.ps, self.n = codec, list(ps), n

    def _subst(self, pairs):
        return Z(self.codec, [psub(p, pairs) for p in self.ps], z3.substitute(self.n, *pairs))


class Cut:
    """the first n bytes of the pieces"""
    def __init__(self, ps, n):
        self.ps, self.n = list(ps), ex(n)

    def _subst(self, pairs):
        return Cut([psub(p, pairs) for p in self.ps], z3.substitute(self.n, *pairs))


def compress(codec):
    def f(v, *a, **k):
        ps = merge(pieces_of(v))
        if not all(isinstance(p, Bin) for p in ps):
            raise Unsupported("compression of such bytes")
        sig, args = [codec], []
        i = z3.Int("zi!")
        for p in ps:
            e = z3.simplify(npm.flatten(p.arr).elem(i) if p.arr.ndim else p.arr.elem())
            fc = [c for n, c in sorted(S.free_consts(e).items()) if n in CTX.loopvars]
            q = [z3.Const(f"za!{j}", c.sort()) for j, c in enumerate(fc)]
            sig.append((p.dt.str, z3.substitute(e, *zip(fc, q)).sexpr() if fc else e.sexpr()))
            args += fc + [p.arr.size()]
        names = CTX.hooks.setdefault("zlen", {})
        nm = names.setdefault(str(sig), f"zlen!{len(names)}")
        return text([Z(codec, ps, z3.Function(nm, *[x.sort() for x in args], IS)(*args))], True)
    return f


def decompress(codec):
    def f(v, *a, **k):
        ps = merge(pieces_of(v))
        if len(ps) != 1 or not isinstance(ps[0], Z):
            raise Unsupported("decompression of such bytes")
        if ps[0].codec != codec:
            raise_py(ValueError, "not compressed by " + codec)
        return text(ps[0].ps, True)
    return f


class SText(Obj):
    """text or bytes made of pieces"""
    def __init__(self, ps, binary=False):
        super().__init__(TEXT)
        self.ps, self.binary = list(ps), binary

    def _subst(self, pairs):
        return SText([psub(p, pairs) for p in self.ps], self.binary)


def merge(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
            # joined texts followed by their separator: rows (or the separator alone if there are none)
            if out and isinstance(out[-1], Joined) and p.startswith(out[-1].sep) and out[-1].sep:
                j = out[-1]
                if CTX.branch(j.n >= 1):
                    out[-1] = Rows(j.n, lambda k, j=j: merge(j.fn(k) + [j.sep]))
                    p = p[len(j.sep):]
                    if p:
                        out.append(p)
                else:
                    out[-1] = p
                    if len(out) > 1 and isinstance(out[-2], str):
                        out[-2:] = [out[-2] + out[-1]]
                continue
        out.append(p)
    return out


def text(ps, binary=False):
    ps = merge(ps)
    if not ps:
        return b"" if binary else ""
    if len(ps) == 1 and isinstance(ps[0], str):
        if not binary:
            return ps[0]
        if not has_tok(ps[0]):
            return ps[0].encode("latin-1")
    return SText(ps, binary)


def pieces_of(v):
    v = M.force(v)
    if isinstance(v, SText):
        return list(v.ps)
    if isinstance(v, bytes):
        return [v.decode("latin-1")]
    if isinstance(v, (str, SStr)):
        return [M.txt(v)]
    if isinstance(v, B.EncText):
        return [v.s]
    raise Unsupported("text of " + type(v).__name__)


def text_call(o, n, a, k):
    if n == "encode":
        return text(o.ps, True)
    if n == "decode":
        return text(o.ps, False)
    if n == "join":
        raise Unsupported("join with symbolic separator")
    if n in ("strip", "rstrip", "lstrip"):
        ps = list(o.ps)
        if n != "rstrip":
            while ps and isinstance(ps[0], str):
                ps[0] = ps[0].lstrip(*a)
                if ps[0]:
                    break
                ps.pop(0)
        if n != "lstrip":
            while ps and isinstance(ps[-1], str):
                ps[-1] = ps[-1].rstrip(*a)
                if ps[-1]:
                    break
                ps.pop()
            if ps and isinstance(ps[-1], Rows):
                r = ps[-1]
                k = loopvar("k")
                row = r.fn(k)
                if row and isinstance(row[-1], str) and row[-1].endswith("\n"):
                    # only the last line loses its end
                    ps[-1] = Joined(r.n, lambda k: merge(r.fn(k)[:-1] + [r.fn(k)[-1][:-1]]), "\n")
        if n != "rstrip" and ps and isinstance(ps[0], Rows) or ps and isinstance(ps[0], Bin) or ps and isinstance(ps[-1], Bin):
            raise Unsupported("stripped text")
        return text(ps, o.binary)
    if len(o.ps) == 1 and isinstance(o.ps[0], str):
        r = B.str_method(o.ps[0], n)(*a, **k)
        return r
    if n in ("startswith", "endswith") and isinstance(o.ps[0 if n == "startswith" else -1], str):
        return B.str_method(o.ps[0 if n == "startswith" else -1], n)(*a)
    raise Unsupported("text." + n)


def join_text(sep, s, binary=False):
    """sep.join of a symbolic number of texts"""
    out = []
    segs = [g for g in s.segs if not (isinstance(g, Items) and not g.xs)]
    for i, g in enumerate(segs):
        if i:
            out.append(sep)
        if isinstance(g, Items):
            for q, x in enumerate(g.xs):
                if q:
                    out.append(sep)
                out += pieces_of(x)
        elif g.cond is not None or g.flat:
            raise Unsupported("join of such texts")
        else:
            if len(segs) > 1 and not CTX.branch(g.n >= 1):
                if i:
                    out.pop()
                elif len(segs) > 1:
                    raise Unsupported("join of such texts")
                continue
            out.append(rows(g.n, lambda k, g=g: merge(pieces_of(g.fn(k)))) if sep == "" else joined(g.n, lambda k, g=g: pieces_of(g.fn(k)), sep))
    return text(out, binary)


def single_number(ps):
    if len(ps) == 1 and isinstance(ps[0], str):
        t = tok_parse(ps[0])
        if t is not None and isinstance(t.v, SNum):
            return t
    return None


def joined(n, fn, sep):
    k = loopvar("k")
    t = single_number(merge(fn(k)))
    if t is not None and sep.strip() == "" and sep:
        return Num(SArr.make([n], lambda i: single_number(merge(fn(i))).v.e if not isinstance(fn(i)[0], SNum) else None, t.v.dt), sep, t.spec)
    return Joined(n, lambda i: merge(fn(i)), sep)


# ----------------------------------------------------------------------------- sizes
def nbytes(ps):
    n = ZERO
    for p in ps:
        if isinstance(p, str):
            if has_tok(p):
                n = n + B.text_len(p)
            else:
                n = n + len(p.encode("latin-1"))
        elif isinstance(p, Bin):
            n = n + p.arr.size() * p.dt.itemsize
        elif isinstance(p, RecBin):
            n = n + p.n * p.itemsize
        elif type(p).__name__ == "B64":
            n = n + ((nbytes(p.ps) + 2) / 3) * 4
        elif isinstance(p, (Z, Cut)):
            n = n + p.n
        elif isinstance(p, Rows) and len(p.fn(loopvar("k"))) == 1 and isinstance(p.fn(loopvar("k"))[0], Z):
            k = loopvar("k")
            n = n + S.prefix_sum(k, p.fn(k)[0].n, p.n)
        else:
            n = n + CTX.fresh("textlen")
    return z3.simplify(n)


# ----------------------------------------------------------------------------- files
class FS_:
    def __init__(self):
        self.files = {}


def reset():
    CTX.fs = FS_()
    OPEN.clear()


def fs():
    return CTX.fs


def fkey(p):
    p = M.force(p)
    if isinstance(p, Obj) and p.cls.name == "Path":
        return str(p.attrs["_e"])
    if isinstance(p, (str, SStr)):
        return str(sstr(p))
    raise Unsupported("open of " + type(p).__name__)


class FileCls:
    name = "file"

    def getattr(self, o, n):
        if n == "name":
            return o.path
        if n == "mode":
            return o.mode
        if n == "closed":
            return False
        f = getattr(self, "f_" + n, None)
        if f is None:
            if n in ("fileno", "truncate", "readable"):
                raise Unsupported("file." + n)
            raise PyExc(AttributeError(n))
        return N("file." + n, lambda *a, **k: f(o, *a, **k))

    def hasattr(self, o, n):
        return hasattr(self, "f_" + n)

    def enter(self, o):
        return o

    def leave(self, o):
        pass

    def isinst(self, o, t):
        return t is object

    def iter(self, o):
        return FileLines(o)

    def f_close(self, o):
        return None

    f_flush = f_close

    def f_write(self, o, v):
        if not o.writing:
            raise Unsupported("write to a file opened for reading")
        v = M.force(v)
        isb = isinstance(v, (bytes, B.EncText)) or isinstance(v, SText) and v.binary
        if isb != o.binary:
            raise_py(TypeError, "write() argument must be " + ("bytes" if o.binary else "str"))
        put(o, pieces_of(v))
        return None

    def f_writelines(self, o, xs):
        sq = M.iter_seq(xs)
        M.run_for(sq, lambda x: self.f_write(o, x))

    def f_tell(self, o):
        if o.writing:
            return mk(CTX.fresh("tell"))
        return FilePos(o.pos, o.off, o.sub)

    def f_seek(self, o, where, whence=0):
        if isinstance(where, FilePos) and whence == 0:
            o.set("pos", where.pos)
            o.set("off", where.off)
            o.set("sub", where.sub)
            return where
        if where == 0 and whence == 0:
            o.set("pos", 0)
            o.set("off", 0)
            o.set("sub", 0)
            return 0
        if whence == 1 and isinstance(where, int) and where < 0:
            p = cur(o)
            if isinstance(o.ps[o.pos] if o.pos < len(o.ps) else None, str) and isinstance(o.off, int) and o.off + where >= 0 and not has_tok(o.ps[o.pos][o.off + where:o.off]):
                o.set("off", o.off + where)
                return None
            if o.pos > 0 and isinstance(o.off, int) and o.off == 0 and isinstance(o.ps[o.pos - 1], str) and len(o.ps[o.pos - 1]) >= -where and not has_tok(o.ps[o.pos - 1][where:]):
                o.set("pos", o.pos - 1)
                o.set("off", len(o.ps[o.pos]) + where)
                return None
        raise Unsupported("file.seek")

    def f_readline(self, o, *a):
        return line_out(o, readline(o))

    def f_readlines(self, o):
        return PList(lines_seq(o))

    def f_read(self, o, n=None):
        if n is None or isinstance(n, int) and n < 0:
            return text(rest(o), o.binary)
        return text(read_n(o, n), o.binary)


FILE = FileCls()


class FilePos:
    def __init__(self, pos, off, sub):
        self.pos, self.off, self.sub = pos, off, sub

    def _subst(self, pairs):
        return FilePos(self.pos, subst(self.off, pairs), self.sub)


class FileLines:
    """iteration over the lines of a file"""
    def __init__(self, f):
        self.f = f


class VFile(Obj):
    def __init__(self, path, mode):
        super().__init__(FILE)
        self.path, self.mode = path, mode
        self.binary, self.writing = "b" in mode, "r" not in mode
        k = fkey(path)
        if "w" in mode:
            self.out = PList()
            fs().files[k] = self.out
            self.ps = None
        elif "a" in mode:
            if k not in fs().files:
                fs().files[k] = PList()
            self.out = fs().files[k]
        else:
            if k not in fs().files:
                raise_py(FileNotFoundError, "no such file")
            self.ps = normalize(fs().files[k].seq)
            self.pos, self.off, self.sub = 0, 0, 0

    def _subst(self, pairs):
        return self


def put(o, ps):
    for p in ps:
        if p == "":
            continue
        o.out.set("seq", o.out.seq.append(p if not isinstance(p, str) or has_tok(p) else Lit(p)))


class Lit(str):
    """text without placeholders"""
    def _subst(self, pairs):
        return self


def normalize(sq):
    return merge(seq_pieces(sq))


def seq_pieces(sq):
    out = []
    for g in sq.segs:
        if isinstance(g, Items):
            out += [str(x) if isinstance(x, str) else x for x in g.xs]
        elif g.cond is not None:
            raise Unsupported("text written only for some elements of a loop")
        elif g.flat:
            k = loopvar("k")
            c = z3.simplify(g.n)
            if z3.is_int_value(c) and c.as_long() <= 4:
                for i in range(c.as_long()):
                    out += seq_pieces(g.fn(z3.IntVal(i)))
                continue
            out.append(rows(g.n, lambda k, g=g: merge(seq_pieces(g.fn(k)))))
        else:
            out.append(rows(g.n, lambda k, g=g: merge(pieces_of_piece(g.fn(k)))))
    return out


def pieces_of_piece(x):
    return [str(x)] if isinstance(x, str) else [x]


def rows(n, fn):
    """n times what fn writes; raw numbers of one layout become one array"""
    k = loopvar("k")
    row = fn(k)
    if row and all(isinstance(p, Bin) for p in row):
        w = [p.arr.size() for p in row]
        if all(z3.is_int_value(x) for x in w) and all(p.dt == row[0].dt for p in row):
            offs, tot = [], 0
            for x in w:
                offs.append(tot)
                tot += x.as_long()

            def el(i, j):
                r = None
                for p, o, x in reversed(list(zip(fn(i), offs, w))):
                    v = npm.flatten(p.arr).elem(z3.simplify(j - o)) if p.arr.ndim else p.arr.elem()
                    r = v if r is None else z3.If(j < o + x.as_long(), v, r)
                return z3.simplify(r)
            return Bin(SArr.make([n, tot], el, row[0].dt))
        raise Unsupported("raw numbers of different kinds written in a loop")
    return Rows(n, fn)


# ----------------------------------------------------------------------------- reading text
def cur(o):
    """skip finished pieces; current piece or None at the end"""
    while o.pos < len(o.ps):
        p = o.ps[o.pos]
        if isinstance(p, str):
            if not isinstance(o.off, int):
                raise Unsupported("a loop reads through a fixed text")
            if o.off < len(p):
                return p
        elif isinstance(p, Rows):
            if isinstance(o.off, int) and o.off == 0 and o.sub == 0:
                if CTX.implied(p.n >= 1) or CTX.branch(p.n >= 1):
                    return p
            elif not CTX.implied(ex(o.off) == p.n):
                if CTX.implied(ex(o.off) < p.n) or CTX.branch(ex(o.off) < p.n):
                    return p
        elif isinstance(p, (Num, Bin, RecBin)):
            n = p.n if isinstance(p, RecBin) else p.arr.size()
            if isinstance(o.off, int) and o.off == 0:
                if CTX.implied(n >= 1) or CTX.branch(n >= 1):
                    return p
            elif not CTX.implied(ex(o.off) == n):
                if CTX.implied(ex(o.off) < n) or CTX.branch(ex(o.off) < n):
                    return p
        else:
            return p
        skip(o)
    return None


def skip(o):
    o.set("pos", o.pos + 1)
    o.set("off", 0)
    o.set("sub", 0)


def row_text(p, i):
    ps = merge(p.fn(ex(i)))
    return ps[0] if len(ps) == 1 and isinstance(ps[0], str) else ps


def readline(o):
    acc = []
    while True:
        p = cur(o)
        if p is None:
            return acc
        if isinstance(p, str):
            i = p.find("\n", o.off)
            if i >= 0:
                acc.append(p[o.off:i + 1])
                if i + 1 < len(p):
                    o.set("off", i + 1)
                else:
                    skip(o)
                return acc
            acc.append(p[o.off:])
            skip(o)
        elif isinstance(p, Rows):
            t = row_text(p, o.off)
            if isinstance(t, list):
                if o.sub or sum(x.count("\n") for x in t if isinstance(x, str)) != 1 or not isinstance(t[-1], str) or not t[-1].endswith("\n"):
                    raise Unsupported("line of a nested text")
                acc += t
                o.set("off", mk(z3.simplify(ex(o.off) + 1)))
                return acc
            i = t.find("\n", o.sub)
            if i < 0:
                raise Unsupported("a text without end of line written in a loop")
            acc.append(t[o.sub:i + 1])
            if i + 1 == len(t):
                o.set("off", mk(z3.simplify(ex(o.off) + 1)))
                o.set("sub", 0)
            else:
                o.set("sub", i + 1)
            return acc
        elif isinstance(p, Num):
            if "\n" in p.sep or not (isinstance(o.off, int) and o.off == 0):
                raise Unsupported("line of numbers")
            acc.append(p)
            skip(o)
        elif isinstance(p, Joined) and "\n" not in p.sep:
            acc.append(p)
            skip(o)
        else:
            raise Unsupported("line of " + type(p).__name__)


def line_out(o, ps):
    return text(ps, o.binary)


def rest(o):
    """everything from here on"""
    out = []
    while True:
        p = cur(o)
        if p is None:
            return out
        if isinstance(p, str):
            out.append(p[o.off:])
        elif isinstance(o.off, int) and o.off == 0 and o.sub == 0:
            out.append(p)
        elif isinstance(p, Bin):
            f, off = npm.flatten(p.arr), ex(o.off)
            out.append(Bin(SArr.make([z3.simplify(p.arr.size() - off)], lambda i, f=f.snap(): f(z3.simplify(i + off)), p.dt), p.dt))
        elif isinstance(p, RecBin):
            out.append(RecBin(z3.simplify(p.n - ex(o.off)), p.dts, lambda i, c, p=p, off=ex(o.off): p.fn(z3.simplify(i + off), c)))
        elif isinstance(p, Rows) and o.sub == 0:
            out.append(Rows(z3.simplify(p.n - ex(o.off)), lambda k, p=p, f=ex(o.off): p.fn(z3.simplify(k + f))))
        else:
            raise Unsupported("rest of a file")
        skip(o)


def rest_all(o):
    """the pieces of a file as they are"""
    if o.pos or o.off or o.sub:
        return rest(o)
    return list(o.ps)


def read_n(o, n):
    """exactly n bytes or characters"""
    out = []
    left = ex(n)
    while True:
        left = z3.simplify(left)
        if z3.is_int_value(left) and left.as_long() == 0:
            return out
        if not z3.is_int_value(left) and (CTX.implied(left == 0)):
            return out
        p = cur(o)
        if p is None:
            return out
        if isinstance(p, str):
            t = p[o.off:]
            if z3.is_int_value(left):
                m = left.as_long()
                i = t.find(T0)
                if i < 0 or i >= m:
                    got = t[:m]
                    out.append(got)
                    o.set("off", o.off + len(got))
                    left = left - len(got)
                    continue
            raise Unsupported("read a number of characters of symbolic text")
        if isinstance(p, Bin):
            sz = p.dt.itemsize
            avail = z3.simplify((p.arr.size() - ex(o.off)) * sz)
            if CTX.implied(left >= avail):
                out.append(bin_slice(p, o.off, z3.simplify(p.arr.size() - ex(o.off))))
                left = left - avail
                skip(o)
                continue
            cnt = z3.simplify(left / sz)
            if CTX.implied(z3.And(cnt * sz == left, cnt >= 0, left < avail)):
                out.append(bin_slice(p, o.off, cnt))
                o.set("off", mk(z3.simplify(ex(o.off) + cnt)))
                return out
        if isinstance(p, RecBin):
            off = ex(o.off)
            avail = z3.simplify((p.n - off) * p.itemsize)
            if CTX.implied(left >= avail):
                out.append(RecBin(z3.simplify(p.n - off), p.dts, lambda i, c, p=p, off=off: p.fn(z3.simplify(i + off), c)))
                left = left - avail
                skip(o)
                continue
        if type(p).__name__ == "B64" and isinstance(o.off, int) and o.off == 0:
            tot = nbytes([p])
            if CTX.implied(left >= tot):
                out.append(p)
                left = left - tot
                skip(o)
                continue
            if z3.is_int_value(left) and left.as_long() % 4 == 0 and CTX.implied(left < tot):
                m = left.as_long() // 4 * 3
                out.append(type(p)([Cut(p.ps, m)]))
                o.set("off", -1)
                return out
            if not z3.is_int_value(left):
                from . import obl
                obl.ensure("base64 texts are told apart where the first one ends", left == tot)
        if isinstance(p, Cut) and isinstance(o.off, int) and o.off == 0 and CTX.implied(left <= p.n):
            out += read_n(whole(p.ps, True), mk(left))
            o.set("off", -1)
            return out
        raise Unsupported("read a number of bytes")


def bin_slice(p, off, cnt):
    if isinstance(off, int) and off == 0 and z3.simplify(cnt == p.arr.size()).eq(z3.BoolVal(True)):
        return p
    f, off = npm.flatten(p.arr).snap(), ex(off)
    return Bin(SArr.make([cnt], lambda i: f(z3.simplify(i + off)), p.dt), p.dt)


# ----------------------------------------------------------------------------- reading numbers
def number(tok, dt):
    """what a text token reads as"""
    if isinstance(tok, str):
        t = tok_parse(tok)
        if t is None:
            if has_tok(tok):
                raise Unsupported("number in mixed text")
            return fconst(float(tok)) if dt.kind == "f" else z3.IntVal(int(tok))
        tok = t
    if dt.kind == "f" and dt.itemsize == 4 and exact32(tok.v, tok.spec):
        return toe(tok.v)
    v = tok_number(tok, "f" if dt.kind == "f" else "i")
    return cast_e(toe(v), FLD if dt.kind == "f" else INT, dt)


def numeric(tok, dt):
    t = tok_parse(tok)
    if t is not None:
        return isinstance(t.v, SNum) and (dt.kind == "f" or not isf(t.v))
    if has_tok(tok):
        raise Unsupported("number in mixed text")
    try:
        float(tok) if dt.kind == "f" else int(tok)
        return True
    except ValueError:
        return False


def collect(parts, dt):
    """parts: (rows, width or None, element function) -> array"""
    parts = [p for p in parts if not (z3.is_int_value(p[0]) and p[0].as_long() == 0)]
    if not parts:
        return SArr.make([0], lambda i: toe(0) if dt.kind != "f" else fconst(0), dt)
    if len(parts) == 1 and parts[0][1] is not None:
        n, w, f = parts[0]
        a = SArr.make([n, w], f, dt)
        return A._flat2(a, A.sh(w), [A.sh(z3.simplify(ex(n) * ex(w)))])
    if all(w is None for _, w, _ in parts):
        # single numbers
        xs = [f(ZERO, ZERO) for n, w, f in parts]
        a = SArr.make([len(xs)], lambda i: pick(xs, i), dt)
        return a
    ws = [w for _, w, _ in parts]
    if all(w is not None and z3.simplify(ex(w) == ex(ws[0])).eq(z3.BoolVal(True)) for w in ws):
        a = A.concatenate(Seq([Items([SArr.make([n, w], f, dt) for n, w, f in parts])]))
        return A._flat2(a, A.sh(ws[0]), [A.sh(z3.simplify(ex(a.shape[0]) * ex(ws[0])))])
    flats = []
    for n, w, f in parts:
        if w is None:
            flats.append(SArr.make([1], lambda i, f=f: f(ZERO, ZERO), dt))
        else:
            a = SArr.make([n, w], f, dt)
            flats.append(A._flat2(a, A.sh(w), [A.sh(z3.simplify(ex(n) * ex(w)))]))
    return A.concatenate(Seq([Items(flats)]))


def pick(xs, i):
    i = z3.simplify(i)
    if z3.is_int_value(i) and 0 <= i.as_long() < len(xs):
        return xs[i.as_long()]
    r = xs[-1]
    for q in range(len(xs) - 2, -1, -1):
        r = z3.If(i == q, xs[q], r)
    return r


def num_source(p, dt):
    """(rows, width, element function) of a piece that consists of numbers only, else None"""
    if isinstance(p, Num):
        a = p.arr
        k = a.dt.kind
        if k not in "iuf":
            return None
        if k == "f" and dt.kind != "f":
            return None
        el = lambda *i: number(Token(mk(a.elem(*i), a.dt) if isinstance(mk(a.elem(*i), a.dt), SNum) else SNum(toe(mk(a.elem(*i), a.dt)), a.dt), p.spec), dt)
        if a.ndim == 1:
            return a.shape[0], 1, lambda i, j: el(i)
        if a.ndim == 2:
            return a.shape[0], a.shape[1], el
        if a.ndim == 0:
            return z3.IntVal(1), 1, lambda i, j: el()
        return None
    if isinstance(p, Rows):
        k = loopvar("k")
        t = row_text(p, k)
        if isinstance(t, list):
            # numbers of symbolic count and white space
            nums = [x for x in t if not isinstance(x, str)]
            if len(nums) == 1 and isinstance(nums[0], Num) and nums[0].arr.ndim == 1 and all(isinstance(x, Num) or not x.strip() for x in t):
                w = nums[0].arr.shape[0]
                if isinstance(w, int) or k.decl().name() not in free_consts(ex(w)):
                    src = lambda i: [x for x in row_text(p, i) if isinstance(x, Num)][0]
                    return p.n, w, lambda i, j: num_source(src(i), dt)[2](j, ZERO)
            return None
        toks = t.split()
        if not toks or not t[-1:].isspace() or not all(numeric(x, dt) for x in toks):
            return None
        return p.n, len(toks), lambda i, j: pick([number(x, dt) for x in row_text(p, i).split()], j)
    return None


def fromtext(o, dt, count):
    """np.fromfile(f, dtype, count, sep=" ")"""
    parts = []
    all_ = isinstance(count, int) and count < 0
    left = None if all_ else z3.simplify(ex(count))
    started = False
    while True:
        if not all_:
            left = z3.simplify(left)
            if z3.is_int_value(left) and left.as_long() <= 0 or not z3.is_int_value(left) and CTX.implied(left <= 0):
                break
        p = cur(o)
        if p is None:
            break
        if isinstance(p, str):
            m = re.compile(r"\s*(\S+)").match(p, o.off)
            if m is None:
                skip(o)
                continue
            tok = m.group(1)
            if not numeric(tok, dt):
                if started or all_:
                    break
                if not all_ and not CTX.implied(left >= 1) and not CTX.branch(left >= 1):
                    left = ZERO
                    break
                break
            if not all_ and not CTX.implied(left >= 1):
                if not CTX.branch(left >= 1):
                    left = ZERO
                    break
            parts.append((z3.IntVal(1), None, lambda i, j, v=number(tok, dt): v))
            o.set("off", m.end())
            started = True
            if not all_:
                left = left - 1
            continue
        src = num_source(p, dt)
        if src is None:
            if isinstance(p, Rows):
                # no number there: reading stops
                t = row_text(p, loopvar("k"))
                if isinstance(t, str) and t.split() and not numeric(t.split()[0], dt):
                    break
            raise Unsupported("numbers in such a text")
        n, w, f = src
        n, w = ex(n), ex(w)
        off = ex(o.off)
        flat1 = z3.simplify(w == 1).eq(z3.BoolVal(True)) or isinstance(p, Rows)
        if o.sub or not flat1 and not z3.simplify(off == 0).eq(z3.BoolVal(True)):
            raise Unsupported("numbers from the middle of a text")
        avail = z3.simplify((n - off) * w)
        started = True
        if all_ or CTX.implied(left >= avail):
            parts.append((z3.simplify(n - off), w, lambda i, j, f=f, off=off: f(z3.simplify(i + off), j)))
            if not all_:
                left = z3.simplify(left - avail)
            skip(o)
            continue
        q = A.factor_out(left, w)
        if q is None and z3.is_int_value(w):
            q = z3.simplify(left / w)
            if not CTX.implied(q * w == left):
                q = None
        if q is not None and CTX.implied(z3.And(q >= 0, q <= n - off)):
            parts.append((q, w, lambda i, j, f=f, off=off: f(z3.simplify(i + off), j)))
            o.set("off", mk(z3.simplify(off + q)))
            left = ZERO
            continue
        if CTX.branch(left >= avail):
            continue
        raise Unsupported("part of the numbers of a text")
    # white space after the last number is skipped too
    p = cur(o) if o.pos < len(o.ps) and isinstance(o.ps[o.pos], str) else None
    if isinstance(p, str) and p[o.off:o.off + 1].isspace():
        tot = ZERO
        for n, w, _ in parts:
            tot = tot + ex(n) * (ex(w) if w is not None else 1)
        if CTX.implied(z3.simplify(tot) >= 1) or CTX.branch(z3.simplify(tot) >= 1):
            m = re.compile(r"\s*").match(p, o.off)
            o.set("off", m.end())
    return collect(parts, dt)


GARBAGE = [0]


def reinterpret_dt(a, b):
    """raw bytes read with another layout than they were written with?"""
    return not (a == b or (a.kind == b.kind or {a.kind, b.kind} == {"i", "u"}) and a.itemsize == b.itemsize and (a.isnative == b.isnative or a.itemsize == 1))


def reinterpret(p, dt):
    return reinterpret_dt(p.dt, dt)


def frombin(o, dt, count):
    parts = []
    all_ = isinstance(count, int) and count < 0
    left = None if all_ else z3.simplify(ex(count))
    while True:
        if not all_:
            left = z3.simplify(left)
            if z3.is_int_value(left) and left.as_long() <= 0 or not z3.is_int_value(left) and CTX.implied(left <= 0):
                break
        p = cur(o)
        if p is None:
            break
        if isinstance(p, str):
            if z3.is_int_value(left) and not has_tok(p[o.off:o.off + left.as_long() * dt.itemsize]):
                b = p[o.off:o.off + left.as_long() * dt.itemsize].encode("latin-1")
                vals = rnp.frombuffer(b[:len(b) // dt.itemsize * dt.itemsize], dt)
                parts += [(z3.IntVal(1), None, lambda i, j, v=(fconst(float(v)) if dt.kind == "f" else z3.IntVal(int(v))): v) for v in vals]
                o.set("off", o.off + len(b))
                left = left - len(vals)
                if len(vals) == 0:
                    break
                continue
            if not all_ and CTX.branch(left <= 0):
                break
            raise Unsupported(f"raw numbers from text {p[o.off:o.off + 20]!r}")
        if not isinstance(p, Bin):
            raise Unsupported("raw numbers from text")
        if not all_ and CTX.branch(left <= 0):
            break
        if reinterpret(p, dt):
            g = z3.Function(f"bytes:{p.dt.str}:{dt.str}", zsort(p.dt), zsort(dt))
            if p.dt.itemsize != dt.itemsize:
                raise Unsupported("raw numbers of another size")
            f0 = npm.flatten(p.arr) if p.arr.ndim else A.reshape(p.arr, [1])
            q_ = Bin(SArr.make(f0.shape, lambda i, f=f0.snap(): g(f(i)), dt), dt)
            p = q_
        a = p.arr if p.arr.ndim else A.reshape(p.arr, [1])
        off = ex(o.off)
        avail = z3.simplify(a.size() - off)
        whole = z3.simplify(off == 0).eq(z3.BoolVal(True))
        if all_ or CTX.implied(left >= avail):
            if whole and a.ndim == 2:
                parts.append((ex(a.shape[0]), ex(a.shape[1]), lambda i, j, f=a.snap(): f(i, j)))
            else:
                parts.append((avail, 1, lambda i, j, f=npm.flatten(a).snap(), off=off: f(z3.simplify(i + off))))
            if not all_:
                left = left - avail
            skip(o)
            continue
        if CTX.implied(z3.And(left >= 0, left <= avail)):
            parts.append((left, 1, lambda i, j, f=npm.flatten(a).snap(), off=off: f(z3.simplify(i + off))))
            o.set("off", mk(z3.simplify(off + left)))
            left = ZERO
            continue
        if CTX.branch(left >= avail):
            continue
        raise Unsupported("part of raw numbers")
    return collect(parts, dt)


def zsort(dt):
    return FS if dt.kind == "f" else IS


def np_fromfile(f, dtype=float, count=-1, sep="", offset=0):
    f = M.force(f)
    if not isinstance(f, VFile):
        f = VFile(f, "rb")
    dt = B.to_dtype(dtype)
    count = M.force(count)
    if dt.fields is not None:
        return read_records(f, dt, count)
    if dt.subdtype is not None:
        raise Unsupported("sub-array dtype")
    if sep == "":
        return frombin(f, dt, count)
    if sep.strip():
        raise Unsupported("separator")
    return fromtext(f, dt, count)


# ----------------------------------------------------------------------------- records (structured dtypes)
def read_records(f, dt, count):
    lay = flat_layout(dt)
    count = -1 if count is None else count
    all_ = isinstance(count, int) and count < 0
    p = cur(f)
    if isinstance(count, int) and 0 <= count <= 1 or p is None:
        if p is None or count == 0:
            return rec_new(0, dt, lambda c: lambda i: toe(0) if lay[c][0].kind != "f" else fconst(0))
        vals = [frombin(f, d, 1) for d, _, _ in lay]
        if any(not z3.simplify(v.size() == 1).eq(z3.BoolVal(True)) for v in vals):
            raise Unsupported("end of file in a record")
        return rec_new(1, dt, lambda c: lambda i: vals[c].elem(ZERO))
    if not all_ and not CTX.implied(ex(count) >= 1) and not CTX.branch(ex(count) >= 1):
        return rec_new(0, dt, lambda c: lambda i: toe(0) if lay[c][0].kind != "f" else fconst(0))
    off = ex(f.off)
    if isinstance(p, Bin) and len({d for d, _, _ in lay}) == 1 and not reinterpret(p, lay[0][0]):
        w = len(lay)
        a = frombin(f, lay[0][0], -1 if all_ else mk(z3.simplify(ex(count) * w)))
        if all_:
            raise Unsupported("records up to the end of a file")
        g = A.reshape(a, [A.sh(ex(count)), w])
        return rec_new(count, dt, lambda c: lambda i: g.elem(i, z3.IntVal(c)))
    if not isinstance(p, RecBin):
        raise Unsupported("records from other data")
    if len(p.dts) != len(lay) or any(reinterpret_dt(a, b) for a, (b, _, _) in zip(p.dts, lay)):
        raise Unsupported("records of another layout")
    left = z3.simplify(p.n - off)
    n = left if all_ else ex(count)
    if not all_ and not CTX.implied(n <= left):
        if CTX.implied(n >= left):
            n = left
        else:
            raise Unsupported("part of the records")
    if CTX.implied(n == left):
        skip(f)
        if all_ and cur(f) is not None:
            raise Unsupported("records up to the end of a file")
    else:
        f.set("off", mk(z3.simplify(off + n)))
    return rec_new(n, dt, lambda c: lambda i: p.fn(z3.simplify(i + off), c))


def whole(ps, binary):
    """a file that consists of the pieces"""
    o = VFile.__new__(VFile)
    Obj.__init__(o, FILE)
    o.path, o.mode, o.binary, o.writing = "", "rb" if binary else "r", binary, False
    o.ps, o.pos, o.off, o.sub = merge(ps), 0, 0, 0
    return o


def np_genfromtxt(f, dtype=float, max_rows=None, **kw):
    """a table of numbers; one row alone gives a one-dimensional array"""
    f, dt, n = M.force(f), B.to_dtype(dtype), M.force(max_rows)
    if kw not in ({}, {"comments": "#"}) or not isinstance(f, VFile) or dt.fields is not None or n is None:
        raise Unsupported("np.genfromtxt")
    p = cur(f)
    if n == 1 and isinstance(p, str):
        while True:
            t = readline(f)
            if len(t) != 1 or not isinstance(t[0], str):
                raise Unsupported("np.genfromtxt of other lines")
            t = t[0].split("#")[0].split()
            if t:
                break
        if not all(numeric(x, dt) for x in t):
            raise Unsupported("np.genfromtxt of text")
        return SArr.make([len(t)], lambda j: pick([number(x, dt) for x in t], j), dt)
    if not isinstance(p, Rows) or not (isinstance(f.off, int) and f.off == 0 and f.sub == 0) or not CTX.implied(ex(n) == p.n):
        raise Unsupported("np.genfromtxt of other lines")
    k = loopvar("k")
    t = row_text(p, k)
    if not isinstance(t, str) or t.count("\n") != 1 or not t.endswith("\n") or "#" in t:
        raise Unsupported("np.genfromtxt of other lines")
    w = len(t.split())
    if not all(numeric(x, dt) for x in t.split()):
        raise Unsupported("np.genfromtxt of text")
    skip(f)
    a = SArr.make([p.n, w], lambda i, j: pick([number(x, dt) for x in row_text(p, i).split()], j), dt)
    if not CTX.implied(p.n >= 2) and CTX.branch(p.n == 1):
        return A.getitem(a, (0,))
    return a


def np_loadtxt(f, dtype=float, max_rows=None, ndmin=0, **kw):
    if kw or ndmin != 2:
        raise Unsupported("np.loadtxt")
    a = np_genfromtxt(f, dtype, max_rows)
    return A.reshape(a, [1, a.shape[0]]) if a.ndim == 1 else a


def np_frombuffer(b, dtype=float, count=-1, offset=0):
    b = M.force(b)
    if isinstance(b, bytes):
        return A.from_concrete(rnp.frombuffer(b, B.to_dtype(dtype), count, offset))
    if offset != 0:
        raise Unsupported("frombuffer offset")
    if B.to_dtype(dtype).fields is not None:
        return read_records(whole(pieces_of(b), True), B.to_dtype(dtype), count)
    return frombin(whole(pieces_of(b), True), B.to_dtype(dtype), count)


def np_fromstring(s, dtype=float, count=-1, sep=""):
    s = M.force(s)
    if sep == "":
        raise Unsupported("fromstring of raw bytes")
    return fromtext(whole(pieces_of(s), False), B.to_dtype(dtype), count)


# ----------------------------------------------------------------------------- writing numbers
def np_savetxt(f, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
    f = M.force(f)
    own_ = None
    if not isinstance(f, VFile):
        f = own_ = VFile(f, "w")
    X = npm.asarray(X)
    if header or footer:
        if header:
            put(f, [comments + header + newline])
        if footer:
            raise Unsupported("savetxt footer")
    if X.ndim == 1:
        X = A.reshape(X, [X.shape[0], 1])
    w = X.shape[1]
    if not isinstance(w, int):
        if not isinstance(fmt, str) or fmt.count("%") != 1:
            raise Unsupported("savetxt of a symbolic width")
        put(f, [Rows(X.shape[0], lambda k: [Num(X.view(X.shape[1:], lambda j, k=k: [k, j]), delimiter, fmt), newline])])
        return
    if isinstance(fmt, PList):
        fmts = fmt.seq.concrete()
        row_fmt = delimiter.join(fmts)
    elif fmt.count("%") == 1:
        row_fmt = delimiter.join([fmt] * w)
    elif fmt.count("%") == w:
        row_fmt = fmt
    else:
        raise_py(ValueError, "fmt has wrong number of % formats")

    def row(k):
        return [M.fmt_percent(row_fmt, tuple(X.scalar(k, j) for j in range(w))) + newline]
    n = X.shape[0]
    if isinstance(n, int):
        put(f, [row(z3.IntVal(i))[0] for i in range(n)])
    else:
        put(f, [Rows(n, row)])


def tofile(a, f, sep="", format="%s"):
    f = M.force(f)
    if not isinstance(f, VFile):
        raise Unsupported("tofile")
    if sep == "":
        put(f, [Bin(a.copy())])
    else:
        put(f, [Num(a.copy(), sep, "" if format == "%s" else format)])


def tobytes(a, order="C"):
    if order not in ("C", None):
        raise Unsupported("tobytes order")
    return text([Bin(a.copy())], True)


# ----------------------------------------------------------------------------- struct
CODES = {"b": "i1", "B": "u1", "h": "i2", "H": "u2", "i": "i4", "I": "u4", "l": "i4", "L": "u4", "q": "i8", "Q": "u8", "f": "f4", "d": "f8"}


def struct_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not isinstance(fmt, str) or has_tok(fmt):
        raise Unsupported("symbolic struct format")
    order = "="
    if fmt and fmt[0] in "<>=@!":
        order, fmt = fmt[0], fmt[1:]
    out = []
    for n, c in re.findall(r"(\d*)\s*([a-zA-Z])", fmt):
        if c == "s":
            out.append(("s", int(n or 1)))
            continue
        if c not in CODES:
            raise Unsupported("struct format " + c)
        d = CODES[c]
        if order == "@" and c in "lL" or fmt and order == "=" and False:
            d = {"l": "i8", "L": "u8"}[c]
        out += [rnp.dtype((">" if order in ">!" else "<") + d)] * int(n or 1)
    return out


def struct_default(fmt):
    """native sizes without a prefix: l is 8 bytes"""
    if isinstance(fmt, str) and fmt and fmt[0] not in "<>=@!":
        return "@" + fmt
    return fmt


def struct_pack(fmt, *vals):
    fs_ = struct_fmt(struct_default(fmt))
    out = []
    vals = list(vals)
    if len(vals) != len(fs_):
        raise_py(TypeError, "pack expected other number of items")
    for d, v in zip(fs_, vals):
        v = M.force(v)
        if isinstance(d, tuple):
            ps = pieces_of(v)
            if len(ps) == 1 and isinstance(ps[0], str) and not has_tok(ps[0]):
                out.append(ps[0][:d[1]].ljust(d[1], "\0"))
                continue
            raise Unsupported("struct text")
        if isinstance(v, SArr):
            v = v.scalar(*[0] * v.ndim) if v.ndim == 0 else v
        if not is_num(v):
            raise Unsupported("struct value")
        out.append(Bin(SArr.make([1], lambda i, v=v, d=d: cast_e(toe(v), dt_of(v), d), d), d))
    return text(merge_bin(out), True)


def merge_bin(ps):
    """neighbouring numbers of one layout as one array"""
    out = []
    for p in ps:
        if out and isinstance(p, Bin) and isinstance(out[-1], Bin) and p.dt == out[-1].dt and p.arr.ndim == out[-1].arr.ndim == 1 and isinstance(p.arr.shape[0], int) and isinstance(out[-1].arr.shape[0], int):
            out[-1] = Bin(A.concatenate(Seq.of(out[-1].arr, p.arr)), p.dt)
        else:
            out.append(p)
    return out


def struct_calcsize(fmt):
    return sum(d[1] if isinstance(d, tuple) else d.itemsize for d in struct_fmt(struct_default(fmt)))


def struct_unpack(fmt, b):
    import struct
    b = M.force(b)
    if isinstance(b, bytes):
        try:
            return struct.unpack(fmt, b)
        except struct.error as e:
            raise PyExc(e)
    o = whole(pieces_of(b), True)
    out = []
    for d in struct_fmt(struct_default(fmt)):
        if isinstance(d, tuple):
            out.append(text(read_n(o, d[1]), True))
            continue
        a = frombin(o, d, 1)
        if not z3.simplify(a.size() == 1).eq(z3.BoolVal(True)):
            raise Unsupported("struct.unpack")
        v = a.elem(ZERO)
        out.append(mk(v))
    if cur(o) is not None:
        raise_py(struct.error, "unpack requires a buffer of another size")
    return tuple(out)


# ----------------------------------------------------------------------------- iteration over lines
def lines_seq(o):
    """all remaining lines"""
    out = []
    while True:
        p = cur(o)
        if p is None:
            return Seq(out)
        if isinstance(p, Rows) and isinstance(o.off, int) and o.off == 0 and o.sub == 0:
            out.append(take_rows(o, p))
        else:
            out.append(Items([line_out(o, readline(o))]))


def take_rows(o, p):
    """the lines of a Rows piece as a segment"""
    t = row_text(p, loopvar("k"))
    b = o.binary
    if isinstance(t, list) or t.count("\n") == 1 and t.endswith("\n"):
        g = Gen(p.n, lambda k: text(row_text(p, k) if isinstance(t, list) else [row_text(p, k)], b))
    else:
        m = t.count("\n")
        if not t.endswith("\n"):
            raise Unsupported("lines of such a text")
        g = Gen(p.n, lambda k: Seq([Items([text([x + "\n"], b) for x in row_text(p, k).split("\n")[:-1]])]), flat=True)
    skip(o)
    return g


def for_lines(o, body):
    """for line in f: body(line)"""
    while True:
        p = cur(o)
        if p is None:
            return "done"
        if isinstance(p, Rows) and isinstance(o.off, int) and o.off == 0 and o.sub == 0:
            if while_rows(o, p, lambda: body(line_out(o, readline(o)))) == "break":
                return "break"
            continue
        try:
            body(line_out(o, readline(o)))
        except M.ContinueEx:
            pass
        except M.BreakEx:
            return "break"


def while_rows(o, p, step):
    """one execution of step per row of the piece"""
    from .loops import summarize
    skip0 = o.pos
    if CTX.implied(p.n >= 1):
        # does the first iteration already end the loop, or read all the rows?
        names = dict(CTX.names)

        def one():
            CTX.names = dict(names)
            try:
                step()
            except M.BreakEx:
                return "break"
            except M.ContinueEx:
                pass
            except (M.ReturnEx, M.PyExc):
                return "on"
            return "on" if o.pos == skip0 else "past"
        try:
            outs = [r for _, r in CTX.sub(one)]
        except Unsupported:
            outs = []
        CTX.names = names
        if outs == ["break"] or outs and set(outs) <= {"break", "past"}:
            try:
                step()
            except M.BreakEx:
                return "break"
            except M.ContinueEx:
                pass
            if o.pos == skip0:
                raise Unsupported("loop over the lines of a file")
            return "past"
    r = summarize(p.n, None, lambda k: step())
    if r == "break":
        return r
    if o.pos == skip0 and not CTX.implied(ex(o.off) == p.n):
        raise Unsupported("loop over the lines of a file")
    return r


FILES = lambda: [f for f in OPEN if f.oid is not None]
OPEN = []


def open_(path, mode="r", *a, **k):
    f = VFile(path, mode)
    CTX.log(lambda: OPEN.remove(f) if f in OPEN else None)
    OPEN.append(f)
    return f


def active_rows(within=False):
    """a file that stands at the beginning of rows of symbolic number (or before some row of them)"""
    for f in OPEN:
        while not f.writing and f.pos < len(f.ps) and isinstance(f.ps[f.pos], str) and isinstance(f.off, int) and f.off >= len(f.ps[f.pos]):
            skip(f)
        if within and not f.writing and f.pos < len(f.ps) and isinstance(f.ps[f.pos], Rows) and f.sub == 0:
            return f
        if not f.writing and f.pos < len(f.ps) and isinstance(f.ps[f.pos], Rows) and isinstance(f.off, int) and f.off == 0 and f.sub == 0:
            return f
    return None


def open_file(path_or_buf, mode="r"):
    if isinstance(path_or_buf, VFile):
        return path_or_buf
    return open_(path_or_buf, mode)


class NowCls:
    """a point in time: its text has no white space (isoformat)"""
    name = "datetime"

    def getattr(self, o, n):
        if n in ("isoformat", "strftime"):
            return N(n, lambda *a, **k: mk(CTX.fresh("now", SS)))
        raise Unsupported("datetime." + n)


def now(*a, **k):
    return Obj(NowCls())


def shlex_split(s, comments=False, posix=True):
    import shlex
    ps = pieces_of(s)
    if len(ps) > 1 or ps and not isinstance(ps[0], str):
        raise Unsupported("shlex.split of such a text")
    CTX.assumptions.add("symbolic names contain no quotes or backslashes")
    try:
        return PList(Seq.of(*shlex.split(ps[0] if ps else "", comments, posix)))
    except ValueError as e:
        raise PyExc(e)


def install():
    m = M.Mod("shlex", {"split": N("shlex.split", shlex_split)})
    m.ext = True
    M.EXTERNAL["shlex"] = m
    np = M.EXTERNAL["numpy"].vars
    np["fromfile"] = N("np.fromfile", np_fromfile)
    np["frombuffer"] = N("np.frombuffer", np_frombuffer)
    np["fromstring"] = N("np.fromstring", np_fromstring)
    np["empty"] = N("np.empty", np_empty)
    np["rec"] = M.Mod("numpy.rec", {"fromarrays": N("np.rec.fromarrays", rec_fromarrays)})
    np["genfromtxt"] = N("np.genfromtxt", np_genfromtxt)
    np["loadtxt"] = N("np.loadtxt", np_loadtxt)
    np["savetxt"] = N("np.savetxt", np_savetxt)
    npm.EXT_ATTR["tofile"] = tofile
    npm.EXT_ATTR["tobytes"] = tobytes
    m = M.Mod("struct", {"pack": N("struct.pack", struct_pack), "unpack": N("struct.unpack", struct_unpack), "calcsize": N("struct.calcsize", struct_calcsize)})
    m.ext = True
    M.EXTERNAL["struct"] = m
    M.EXTERNAL["builtins_open"] = M.Mod("builtins_open", {"open": N("open", open_)})
    M.OVERRIDE["meshio._files.open_file"] = open_file
    m = M.Mod("ctypes", {"c_float": rnp.float32, "c_double": rnp.float64})
    m.ext = True
    M.EXTERNAL["ctypes"] = m
    m = M.Mod("datetime", {"datetime": M.Mod("datetime.datetime", {"now": N("datetime.now", now)}), "date": M.Mod("datetime.date", {"today": N("date.today", now)})})
    m.ext = True
    M.EXTERNAL["datetime"] = m
    B._join_text = join_text
    M.FILEMODEL = __import__("sys").modules[__name__]


install()

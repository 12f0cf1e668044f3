"""read/write dispatch.  The registries are unknown maps; a reader is an unknown function that returns a mesh, raises
ReadError or raises something else; every call of a reader or writer is recorded in order."""
from ..symmesh import *
from ..obl import *

OC = F("outcome", SS, IS)          # of the reader registered under a format name: 0 mesh, 1 ReadError, 2 other error


class Env:
    pass


def setup(nofmt=True):
    e = Env()
    e.h = M.load("meshio._helpers")
    e.ev = PList()
    e.mesh_of = F("mesh_of", SS, IS)
    e.RE = M.load("meshio._exceptions").vars["ReadError"]
    e.WE = M.load("meshio._exceptions").vars["WriteError"]
    MeshTok = F("meshtok", SS, FS)

    def reader(k):
        t = sstr(k)

        def run(*a, **kw):
            e.ev.set("seq", e.ev.seq.append(("read", mk(t), tuple(a), tuple(sorted(kw)))))
            if CTX.branch(OC(t) == 0):
                return mk(MeshTok(t))
            if CTX.branch(OC(t) == 1):
                raise PyExc(Obj(e.RE, {"args": ()}))
            raise PyExc(KeyError("other error"))
        return M.Native("reader", run)
    e.MeshTok = MeshTok

    def writer(k):
        t = sstr(k)

        def run(*a, **kw):
            e.ev.set("seq", e.ev.seq.append(("write", mk(t), tuple(a), tuple(kw.items()))))
            return mk(z3.Const("written", FS))
        return M.Native("writer", run)
    e.FL, e.FT = F("FL", SS, IS), F("FT", SS, IS, SS)
    q = z3.Const("qs", SS)
    require(z3.ForAll([q], e.FL(q) >= 0, patterns=[e.FL(q)]))
    e.readers = M.SMap("reader_map", reader)
    e.writers = M.SMap("writer_map", writer)
    e.exts = M.SMap("ext", lambda k: PList(Seq([Gen(e.FL(sstr(k)), lambda i: mk(e.FT(sstr(k), i)))])))
    for x in (e.readers, e.writers, e.exts):
        x.owner = "registry"
    e.h.vars["reader_map"], e.h.vars["_writer_map"], e.h.vars["extension_to_filetypes"] = e.readers, e.writers, e.exts
    e.path = z3.Const("path", SS)
    return e


def no_calls(e):
    ensure("calls no reader or writer", e.ev.seq.length() == 0)


# ---- the formats of a path, by specification
def spec_exts(e):
    """E(j): the last j suffixes joined, in lower case"""
    E = F("E", IS, SS)
    n = z3.Function("path.nsuffixes", SS, IS)(e.path)
    sf = z3.Function("path.suffix", SS, IS, SS)
    lo = z3.Function("str.lower", SS, SS)
    step = lambda j: text_term(tokstr(mk(lo(sf(e.path, n - 1 - j))), "") + tokstr(mk(lo(E(j))), ""))
    require(E(0) == CTX.strc(""))
    a, b = z3.Const("lo%a", SS), z3.Const("lo%b", SS)
    cat = lambda x, y: text_term(tokstr(mk(x), "") + tokstr(mk(y), ""))
    # lower case: idempotent, letter by letter
    require(lo(CTX.strc("")) == CTX.strc(""))
    require(z3.ForAll([a], lo(lo(a)) == lo(a), patterns=[lo(lo(a))]))
    require(z3.ForAll([a, b], lo(cat(a, b)) == cat(lo(a), lo(b)), patterns=[lo(cat(a, b))]))
    j = loopvar("j")
    # E is in lower case (induction over j with the three facts above)
    require(z3.ForAll([j], z3.Implies(j >= 0, lo(E(j)) == E(j)), patterns=[E(j)]))
    j = loopvar("j")
    require(z3.ForAll([j], z3.Implies(j >= 0, E(j + 1) == step(j)), patterns=[E(j + 1)]))
    return E, n, step


def induct(E, step, n):
    """every recursively described string of the code that satisfies the recursion of E equals E (induction, checked)"""
    for r in CTX.recs:
        t = r.t
        if t.kind != "num" or t.sort != SS:
            continue
        k = r.k
        base = CTX.implied(toe(t.init) == E(0))
        s = z3.substitute(r.step(), (t.f(k), E(k)))
        if base and CTX.check(0 <= k, k < n, z3.Not(s == E(k + 1))) == z3.unsat:
            j = loopvar("j")
            require(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= n), t.f(j) == E(j)), patterns=[t.f(j)]))
            continue
        # the string is put in lower case when it is used
        lo = z3.Function("str.lower", SS, SS)
        hyp = lo(z3.Const("rec%ext", SS)) == E(k)
        s = z3.substitute(r.step(), (t.f(k), z3.Const("rec%ext", SS)))
        if CTX.implied(lo(toe(t.init)) == E(0)) and CTX.check(0 <= k, k < n, hyp, z3.Not(lo(s) == E(k + 1))) == z3.unsat:
            j = loopvar("j")
            require(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= n), lo(t.f(j)) == E(j)), patterns=[t.f(j)]))


def types_of_path():
    e = setup()
    E, n, step = spec_exts(e)
    p = M.call(M.EXTERNAL["pathlib"].vars["Path"], [mk(e.path)], {})
    frame_start()
    kind, r = call("meshio._helpers", "_filetypes_from_path", [p])
    frame_end()
    induct(E, step, n)
    has = z3.Function("has_ext", SS, BS)
    no_calls(e)
    want = Seq([Gen(n, lambda j: Seq([Gen(e.FL(E(j + 1)), lambda i: mk(e.FT(E(j + 1), i)))]), lambda j: has(E(j + 1)), True)])
    if kind == "raise":
        ensure("raises ReadError", exc_name(r) == "ReadError")
        j = z3.Int("j0")
        ensure("raises only if no format is registered", want.length() == 0)
        return
    ensure("not empty", r.seq.length() > 0)
    ensure_same("formats of the shorter suffixes first", r, PList(want))


def types_contract(e):
    """contract of _filetypes_from_path as used by its callers: a non-empty list of names, or ReadError"""
    N_, nm = z3.Int("ntypes"), F("ftype", IS, SS)

    CTX.assume(N_ >= 1)

    def f(path):
        if CTX.branch(z3.Bool("deduced")):
            return PList(Seq([Gen(N_, lambda i: mk(nm(i)))]))
        raise PyExc(Obj(e.RE, {"args": ()}))
    M.OVERRIDE["meshio._helpers._filetypes_from_path"] = f
    return N_, nm


def read_file(with_format):
    def run():
        e = setup()
        N_, nm = types_contract(e)
        exists = z3.Function("path.exists", SS, BS)(e.path)
        has = z3.Function("has_reader_map", SS, BS)
        fmt = new_string("fmt")
        require(fmt.e != CTX.strc(""))
        frame_start()
        kind, r = call("meshio._helpers", "read", [mk(e.path)] + ([fmt] if with_format else []))
        frame_end()
        fs = (lambda i: fmt.e) if with_format else nm
        n = z3.IntVal(1) if with_format else N_
        ev = e.ev.seq
        nev = ev.length()
        # what was called: the first nev formats, in order, once each, with the path only
        ensure("number of readers tried", z3.And(0 <= nev, nev <= n))
        for i, x, h in each(ev):
            ensure("reads, never writes", x[0] == "read")
            ensure("tries the formats in order", sstr(x[1]) == fs(i), h)
            ensure("passes only the path", len(x[2]) == 1 and x[3] == ())
            ensure("passes the path", sstr(x[2][0]) == e.path, h)
            ensure("every reader tried is registered", has(fs(i)), h)
            ensure("earlier readers refused", z3.Implies(i < nev - 1, OC(fs(i)) == 1), h)
        return_ok = z3.And(nev >= 1, OC(fs(nev - 1)) == 0)
        if kind == "return":
            ensure("file exists", exists)
            ensure("returns only if the last reader tried succeeded", return_ok)
            ensure_same("returns that reader's mesh", r, mk(e.MeshTok(fs(nev - 1))))
            return
        nm_ = exc_name(r)
        ded = z3.BoolVal(True) if with_format else z3.Bool("deduced")
        if nm_ == "ReadError":
            ensure("ReadError only for a missing file, an unknown extension or an unknown format",
                   z3.Or(z3.Not(exists), z3.Not(ded), z3.And(nev < n, z3.Not(has(fs(nev))))))
            ensure("no reader is called for a missing file", z3.Implies(z3.Not(exists), nev == 0))
        elif nm_ == "SystemExit":
            ensure("gives up only after all readers refused", z3.And(exists, nev == n, z3.Implies(nev >= 1, OC(fs(nev - 1)) == 1)))
        else:
            ensure("other errors are the reader's own", z3.And(nev >= 1, OC(fs(nev - 1)) != 0, OC(fs(nev - 1)) != 1))
    return run


CONTRACTS = [("_filetypes_from_path", types_of_path), ("read(path)", read_file(False)), ("read(path, format)", read_file(True))]


def read_buffer():
    from .c06 import BUF
    e = setup()
    has = z3.Function("has_reader_map", SS, BS)
    b = Obj(BUF)
    how = CTX.choose(2)
    fmt = new_string("fmt")
    frame_start()
    kind, r = call("meshio._helpers", "read", [b] + ([fmt] if how else []))
    frame_end()
    evs = e.ev.seq.concrete()
    usable = z3.And(has(fmt.e), fmt.e != CTX.strc("tetgen")) if how else z3.BoolVal(False)
    ensure("at most one reader", evs is not None and len(evs) <= 1)
    if evs:
        ensure("the reader asked for", z3.And(sstr(evs[0][1]) == fmt.e, usable))
        ensure("gets the buffer only", evs[0][2] == (b,) and evs[0][3] == ())
    if kind == "return":
        ensure("a reader was called", len(evs) == 1)
        ensure_same("returns the reader's mesh", r, mk(e.MeshTok(fmt.e)))
    elif not evs:
        ensure("ReadError", exc_name(r) == "ReadError")
        ensure("refused only if the format is missing, unknown or tetgen", z3.Not(usable))
    else:
        ensure("the reader's own error", OC(fmt.e) != 0)


def ext_registry(e, m):
    """a registry of m extensions (different symbolic strings), each with a list of any length"""
    e.keys = [z3.Const(f"ext{i}", SS) for i in range(m)]
    if m > 1:
        require(z3.Distinct(*e.keys))
    e.lists = [PList(Seq([Gen(e.FL(k), lambda i, k=k: mk(e.FT(k, i)))])) for k in e.keys]
    d = PDict.make([(mk(k), l) for k, l in zip(e.keys, e.lists)])
    e.h.vars["extension_to_filetypes"] = d
    return d


def old_list(e, q):
    return Seq([Gen(e.FL(q), lambda i: mk(e.FT(q, i)))])


def register(m, n):
    def run():
        e = setup()
        d = ext_registry(e, m)
        name = new_string("name")
        new = [z3.Const(f"new{i}", SS) for i in range(n)]
        if n > 1:
            require(z3.Distinct(*new))
        rd = M.Native("new reader", lambda *a: None)
        wr = M.Native("new writer", lambda *a: None)
        use = CTX.choose(2)
        kind, r = call("meshio._helpers", "register_format", [name, PList(Seq([Items([mk(x) for x in new])])), rd if use else None, PDict.make([(name, wr)])])
        ensure("does not raise", kind == "return")
        q = z3.Const("q", SS)
        here = M.truth(M.dict_contains(d, mk(q)))
        old, isnew = z3.Or(*[q == k for k in e.keys]) if m else z3.BoolVal(False), z3.Or(*[q == k for k in new]) if n else z3.BoolVal(False)
        ensure("known extensions: the old ones and the new ones", z3.BoolVal(bool(here)) == z3.Or(old, isnew))
        if here:
            got = M.dict_get(d, mk(q)).seq
            base = old_list(e, q) if CTX.branch(old) else Seq()
            want = base.append(name) if CTX.branch(isnew) else base
            ensure_same("formats of an extension: the old ones in order, then the new one", PList(got), PList(want))
        f = new_string("f")
        has_r, has_w = z3.Function("has_reader_map", SS, BS), z3.Function("has_writer_map", SS, BS)
        if CTX.branch(f.e == name.e):
            ensure("the writer is reachable under its name", M.truth(e.writers.contains(f)) and e.writers.get(f) is wr)
            if use:
                ensure("the reader is reachable under its name", M.truth(e.readers.contains(f)) and e.readers.get(f) is rd)
        else:
            for nm_, mp, has in (("readers", e.readers, has_r), ("writers", e.writers, has_w)):
                ensure(f"other {nm_} are untouched", bex(mp.contains(f)) == has(f.e))
                ensure(f"other {nm_} keep their function", all(keyeq_false(k, f) for k, v in mp.log))
    return run


def keyeq_false(k, f):
    return CTX.implied(z3.Not(bex(M.keyeq(k, f)))) if M.keyeq(k, f) is not False else True


def deregister(m):
    def run():
        e = setup()
        d = ext_registry(e, m)
        name = new_string("name")
        for k in e.keys:         # a format is listed once per extension
            i, j = loopvar("i"), loopvar("j")
            require(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < e.FL(k)), e.FT(k, i) != e.FT(k, j)), patterns=[z3.MultiPattern(e.FT(k, i), e.FT(k, j))]))
        kind, r = call("meshio._helpers", "deregister_format", [name])
        ensure("does not raise", kind == "return")
        ents = M.dict_ents(d).concrete()
        ensure("extensions are kept", len(ents) == m and all(sstr(a).eq(k) for (a, _), k in zip(ents, e.keys)))
        for (a, l), k in zip(ents, e.keys):
            p = z3.Int("p0")
            i = z3.Int("i0")
            n = l.seq.length()
            with given(0 <= p, p < e.FL(k), e.FT(k, p) == name.e) as ok:
                if ok:
                    ensure("one format less", n == e.FL(k) - 1)
                    with given(0 <= i, i < n) as ok2:
                        if ok2:
                            ensure("the others are kept in order", sstr(l.seq.get(i)) == z3.If(i < p, e.FT(k, i), e.FT(k, i + 1)))
                            ensure("the format is gone", sstr(l.seq.get(i)) != name.e)
            j = loopvar("j")
            with given(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < e.FL(k)), e.FT(k, j) != name.e), patterns=[e.FT(k, j)])) as ok:
                if ok:
                    ensure_same("lists without the format are untouched", l, PList(old_list(e, k)))
        f = new_string("f")
        has_r, has_w = z3.Function("has_reader_map", SS, BS), z3.Function("has_writer_map", SS, BS)
        if CTX.branch(f.e == name.e):
            ensure("reader and writer are gone", z3.And(z3.Not(bex(e.readers.contains(f))), z3.Not(bex(e.writers.contains(f)))))
        else:
            ensure("other readers and writers are untouched", z3.And(bex(e.readers.contains(f)) == has_r(f.e), bex(e.writers.contains(f)) == has_w(f.e)))
    return run



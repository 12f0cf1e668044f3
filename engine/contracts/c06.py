from ..symmesh import *
from ..obl import *
from .disp import setup, types_contract, no_calls


class BufCls:
    name = "buffer"

    def hasattr(self, o, n):
        return n in ("read", "write")

    def getattr(self, o, n):
        raise Unsupported("buffer." + n)


BUF = BufCls()


def write_(target, with_format):
    def run():
        e = setup()
        s = sym_mesh()
        N_, nm = types_contract(e)
        fmt = new_string("fmt")
        require(fmt.e != CTX.strc(""))
        opt = mk(z3.Const("optval", FS))
        dest = mk(e.path) if target == "path" else Obj(BUF)
        nn = M.load("meshio._common").vars["num_nodes_per_cell"]
        M.table(nn)
        frame_start()
        kind, r = call("meshio._helpers", "write", [dest, s.obj] + ([fmt] if with_format else []), {"opt": opt})
        frame_end()
        t = M.table(nn)
        bad = lambda k: z3.And(t.pres(s.T(k)), t.f(s.T(k)) != s.W(k))
        k = loopvar("k")
        malformed = z3.Exists([k], z3.And(0 <= k, k < s.N, bad(k)))
        has = z3.Function("has_writer_map", SS, BS)
        the = fmt.e if with_format else nm(0)
        refuse = z3.Not(has(the))
        if target == "buffer":
            refuse = z3.Or(refuse, fmt.e == CTX.strc("tetgen")) if with_format else z3.BoolVal(True)
        elif not with_format:
            refuse = z3.Or(refuse, z3.Not(z3.Bool("deduced")))
        evs = e.ev.seq.concrete()
        ensure("at most one writer call", evs is not None and len(evs) <= 1)
        if kind == "raise":
            ensure("raises a meshio error", exc_name(r) in ("WriteError", "ReadError"))
            ensure("refuses only unknown formats and malformed cells", z3.Or(refuse, malformed))
            if exc_name(r) == "ReadError":
                ensure("ReadError only if no format can be deduced", z3.Not(z3.Bool("deduced")))
            no_calls(e)
            return
        ensure("malformed cells are refused", z3.Not(malformed))
        ensure("unknown formats are refused", z3.Not(refuse))
        ensure("exactly one writer call", len(evs) == 1)
        _, key, args, kw = evs[0]
        ensure("the writer of the requested or first deduced format", sstr(key) == the)
        ensure("gets the caller's file, mesh and options", len(args) == 2 and (args[0] is dest or sstr(args[0]) is not None and sstr(args[0]).eq(e.path)) and args[1] is s.obj and len(kw) == 1 and kw[0][0] == "opt" and kw[0][1] is opt)
        ensure_same("returns what the writer returns", r, mk(z3.Const("written", FS)))
    return run


CONTRACTS = [(f"write({t}{', format' if f else ''})", write_(t, f)) for t in ("path", "buffer") for f in (True, False)]


def node_table():
    """finite: the node counts of the table are the ones the type names mean"""
    nn = dict(M.dict_ents(M.load("meshio._common").vars["num_nodes_per_cell"]).concrete())
    base = {"vertex": 1, "line": 2, "triangle": 3, "quad": 4, "tetra": 4, "hexahedron": 8, "wedge": 6, "pyramid": 5}
    for t, n in nn.items():
        digits = t[len(t.rstrip("0123456789")):]
        ensure("node count of every type", n == (int(digits) if digits else base[t]))
    for t in base:
        ensure("linear types are checked", t in nn)


CONTRACTS += [("num_nodes_per_cell", node_table)]

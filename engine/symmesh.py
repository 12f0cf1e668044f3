"""Symbolic meshes of any size."""
from __future__ import annotations
import z3
import numpy as rnp
from .core import *
from .seq import *
from .arr import SArr
from . import interp as M
from . import npm as _npm  # noqa: F401  (registers numpy)


def F(name, *sorts):
    return z3.Function(name, *sorts)


class SymMesh:
    pass


def sym_mesh(pdim=None, owner="mesh", cd_cols=False, tag="", fixed_blocks=None, int_cell_data=False, int_point_data=False, sets=True, opt_sets=True, dt_cells=INT):
    """a mesh object whose number of points, blocks, cells, data arrays and sets are all unknown"""
    mod = M.load("meshio._mesh")
    Mesh, CellBlock = mod.vars["Mesh"], mod.vars["CellBlock"]
    s = SymMesh()
    s.N = z3.Int(tag + "N") if fixed_blocks is None else z3.IntVal(fixed_blocks)
    s.T, s.L, s.W = F(tag + "T", IS, SS), F(tag + "L", IS, IS), F(tag + "W", IS, IS)
    s.D = F(tag + "D", IS, IS, IS, IS)
    s.dim, s.tagn = F(tag + "dimk", IS, IS), F(tag + "ntags", IS, IS)
    s.P = z3.Int(tag + "P")
    s.pd = z3.IntVal(pdim) if pdim else z3.Int(tag + "pdim")
    s.X = F(tag + "X", IS, IS, FS)
    k = loopvar("k")
    CTX.assume(z3.And(s.N >= 0, s.P >= 0, s.pd >= 1))
    CTX.assume(z3.ForAll([k], s.L(k) >= 0, patterns=[s.L(k)]))
    CTX.assume(z3.ForAll([k], s.W(k) >= 1, patterns=[s.W(k)]))
    s.points = SArr.make([s.P, s.pd], lambda i, j: s.X(i, j), FLD)

    def block_data(i):
        return SArr.make([s.L(i), s.W(i)], lambda a, b: s.D(i, a, b), dt_cells)
    s.block_data = block_data

    def cell(i):
        tg = F(tag + "tag", IS, IS, SS)
        o = Obj(CellBlock, {"type": mk(s.T(i)), "data": block_data(i), "dim": mk(s.dim(i)), "tags": PList(Seq([Gen(s.tagn(i), lambda q: mk(tg(i, q)))]))})
        return own(o, owner)
    CTX.assume(z3.ForAll([k], s.tagn(k) >= 0, patterns=[s.tagn(k)]))
    s.cell = cell
    s.cells = own(PList(Seq([Gen(s.N, cell)])), owner)
    # point data
    s.NP, s.PN, s.PV = z3.Int(tag + "NPD"), F(tag + "PN", IS, SS), F(tag + "PV", IS, IS, IS if int_point_data else FS)
    names_distinct(s.NP, s.PN)
    s.point_data = own(PDict(Seq([Gen(s.NP, lambda i: (mk(s.PN(i)), SArr.make([s.P], lambda a: s.PV(i, a), INT if int_point_data else FLD)))])), owner)
    # cell data
    s.NC, s.CN = z3.Int(tag + "NCD"), F(tag + "CN", IS, SS)
    sort = IS if int_cell_data else FS
    s.CV = F(tag + "CV", IS, IS, IS, sort) if not cd_cols else F(tag + "CV", IS, IS, IS, IS, sort)
    s.CC = F(tag + "CC", IS, IS)
    names_distinct(s.NC, s.CN)
    CTX.assume(z3.ForAll([k], s.CC(k) >= 0, patterns=[s.CC(k)]))

    def cdarr(i, b):
        if cd_cols:
            return SArr.make([s.L(b), s.CC(i)], lambda a, c: s.CV(i, b, a, c), INT if int_cell_data else FLD)
        return SArr.make([s.L(b)], lambda a: s.CV(i, b, a), INT if int_cell_data else FLD)
    s.cdarr = cdarr
    s.cell_data = own(PDict(Seq([Gen(s.NC, lambda i: (mk(s.CN(i)), own(PList(Seq([Gen(s.N, lambda b: cdarr(i, b))])), owner)))])), owner)
    # sets
    s.NS, s.SN = z3.Int(tag + "NCS"), F(tag + "SN", IS, SS)
    names_distinct(s.NS, s.SN)
    s.SL, s.SM, s.SH = F(tag + "SL", IS, IS, IS), F(tag + "SM", IS, IS, IS, IS), F(tag + "SH", IS, IS, BS)
    b, a = loopvar("b"), loopvar("a")
    CTX.assume(z3.ForAll([k, b], s.SL(k, b) >= 0, patterns=[s.SL(k, b)]))
    CTX.assume(z3.ForAll([k, b, a], z3.Implies(z3.And(0 <= a, a < s.SL(k, b)), z3.And(0 <= s.SM(k, b, a), s.SM(k, b, a) < s.L(b))), patterns=[s.SM(k, b, a)]))

    def csarr(i, q):
        v = SArr.make([s.SL(i, q)], lambda c: s.SM(i, q, c), INT)
        return SOpt(s.SH(i, q), v) if opt_sets else v
    s.csarr = csarr
    s.cell_sets = own(PDict(Seq([Gen(s.NS, lambda i: (mk(s.SN(i)), own(PList(Seq([Gen(s.N, lambda q: csarr(i, q))])), owner)))])), owner)
    s.NQ, s.QN, s.QL, s.QM = z3.Int(tag + "NPS"), F(tag + "QN", IS, SS), F(tag + "QL", IS, IS), F(tag + "QM", IS, IS, IS)
    names_distinct(s.NQ, s.QN)
    CTX.assume(z3.ForAll([k], s.QL(k) >= 0, patterns=[s.QL(k)]))
    CTX.assume(z3.ForAll([k, a], z3.Implies(z3.And(0 <= a, a < s.QL(k)), z3.And(0 <= s.QM(k, a), s.QM(k, a) < s.P)), patterns=[s.QM(k, a)]))
    s.point_sets = own(PDict(Seq([Gen(s.NQ, lambda i: (mk(s.QN(i)), SArr.make([s.QL(i)], lambda c: s.QM(i, c), INT)))])), owner)
    s.field_data = own(PDict(), owner)
    s.obj = own(Obj(Mesh, {"points": s.points, "cells": s.cells, "point_data": s.point_data, "cell_data": s.cell_data, "field_data": s.field_data,
                           "point_sets": s.point_sets, "cell_sets": s.cell_sets, "gmsh_periodic": None, "info": None}), owner)
    s.points.buf.owner = owner
    return s


def own(o, owner):
    o.owner = owner
    return o


def names_distinct(n, f):
    i, j = loopvar("i"), loopvar("j")
    CTX.assume(n >= 0)
    CTX.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), f(i) != f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))


def new_string(name):
    return mk(z3.Const(name, SS))


def call(modname, fname, args, kw=None):
    """-> ("return", value) or ("raise", exception)"""
    m = M.load(modname)
    f = m.vars
    for p in fname.split("."):
        f = f[p] if isinstance(f, dict) else f.ns[p]
    return call_any(f, args, kw)


def call_any(f, args, kw=None):
    try:
        return "return", M.call(f, list(args), dict(kw or {}))
    except PyExc as e:
        return "raise", e.value


def exc_name(v):
    if isinstance(v, Obj):
        return v.cls.name
    return type(v).__name__

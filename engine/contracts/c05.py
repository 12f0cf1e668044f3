"""read/write dispatch: contracts on the real functions of _helpers.py (see disp.py)"""
from .disp import *
from .disp import CONTRACTS as _C, read_buffer, register, deregister
from . import c06 as _c06
CONTRACTS = list(_C)
CONTRACTS += [("read(buffer)", read_buffer)] + [c for c in _c06.CONTRACTS if c[0].startswith("write(")]
CONTRACTS += [(f"register_format[{m} known, {n} new extensions]", register(m, n), {"bounded": "number of extensions"}) for m in (0, 1, 2) for n in (0, 1, 2)]
CONTRACTS += [(f"deregister_format[{m} extensions]", deregister(m), {"bounded": "number of extensions"}) for m in (0, 1, 2, 3)]

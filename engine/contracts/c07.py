"""Every writer leaves the caller's mesh as it was: frame condition `modifies nothing of the caller`, store by store (engine.frame)."""
from .. import frame as FR
from .. import obl
from .. import interp as M


def record(name, r):
    if r["note"]:
        obl.OBS.add(name + ": frame", "undecided", r["note"])
    for (fn, what), bad in sorted(r["obl"].items()):
        label = f"{name}/{fn}: {what}"
        hard = sorted(p for p, soft in bad.items() if not soft)
        if hard:
            obl.OBS.add(label, "refuted", "frame: " + "; ".join(f"writer={name} object={p}" for p in hard) + f"\nthe statement can change {', '.join(hard)} of the mesh that is written")
        elif bad:
            obl.OBS.add(label, "undecided", "may change an array element by element: " + ", ".join(bad))
        elif r["note"]:
            obl.OBS.add(label, "undecided", r["note"])
        else:
            obl.OBS.add(label, "discharged")
    for why in sorted(r["unknown"]):
        obl.OBS.add(f"{name}: what is called", "undecided", why)
    if not r["unknown"] and not r["note"]:
        obl.OBS.add(f"{name}: every call is followed or in the table of library functions", "discharged")
    M.FUNCS_RUN.update(r["functions"])
    from ..core import CTX
    CTX.assumptions |= r["assumed"] | {"numpy functions give fresh arrays or views as in the table of engine/frame.py", "reflection (setattr, __dict__, exec) is not used on the mesh (undecided if it is)"}


def writers():
    an, ws = FR.all_writers()
    if not ws:
        obl.OBS.add("registered writers", "undecided", "no register_format call was found")
    for name, (mod, fv) in sorted(ws.items()):
        record(name, FR.check_writer(an, name, mod, fv))


def dispatch():
    an, ws = FR.all_writers()
    m = an.module("meshio._helpers")
    for l in m.vars["_writer_map"]:        # a registered writer, by its contract
        FR.BASE.setdefault(l, {})["[]"] = frozenset([FR.ext("registered writer.write")])
    record("meshio.write", FR.check_writer(an, "write", m, m.vars["write"]))
    mm = an.module("meshio._mesh")
    mesh = next(iter(mm.vars["Mesh"])).find("write")
    record("Mesh.write", FR.check_writer(an, "Mesh.write", mm, frozenset([mesh]), swap=True))


CONTRACTS = [("registered writers", writers), ("dispatch", dispatch)]

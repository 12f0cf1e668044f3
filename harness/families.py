"""Families of meshes: the bounded domain on which the format contracts are evaluated at run time."""
import itertools, random
from gen import nn
import spec as SP


def pts_for(blocks, extra=2):
    return max([nn(t) for t, n in blocks] + [6]) + extra


def params(sp, tier, seed):
    """yield (name, params) pairs in the domain of the format contract `sp`"""
    rnd = random.Random(f"{sp.key}-{seed}")
    T = list(sp.types)
    dims = sp.dims
    dim0 = 3 if 3 in dims else dims[0]
    base_t = [t for t in ("triangle", "tetra", "quad", "line") if t in T] or T[:1]
    b0 = base_t[0]

    def P(blocks, **k):
        k.setdefault("npts", pts_for(blocks))
        k.setdefault("dim", dim0)
        k.setdefault("pdtype", sp.pdt[0])
        k.setdefault("cdtype", sp.cdt[0])
        k["blocks"] = [list(b) for b in blocks]
        return k

    def real(t):
        return ["polygon", 5] if t == "polygon" else t

    # every type, several sizes
    for t in T:
        for n in (1, 2, 3) + ((7, 17, 40) if tier == "thorough" or t in base_t else ()):
            yield f"one-{t}-{n}", P([(t, n)])
    for t in sp.more:
        yield f"more-{t}", P([(t, 2)])
    if not sp.oriented:
        for t in T:
            yield f"point1-{t}", P([(t, 1)], npts=1)
            yield f"point2-{t}", P([(t, 2)], npts=2)
    # points: dimension, dtype, layout, values, unused points, indices that need more digits/bytes
    for d in dims:
        for v in sp.values:
            yield f"dim{d}-{v}", P([(b0, 5)], dim=d, values=v)
    for dt in sp.pdt:
        yield f"pts-{dt}", P([(b0, 5)], pdtype=dt)
    for dt in ("f4", "i8", "i4"):
        if dt not in sp.pdt and not (sp.key == "medit" and dt != "f4"):
            for d in dims:
                yield f"points-{dt}-{d}", P([(b0, 5)], pdtype=dt, dim=d, other_dt=True)
    for dt in sp.cdt:
        yield f"conn-{dt}", P([(b0, 5)], cdtype=dt)
    for lay in sp.layouts:
        yield f"layout-{lay}", P([(b0, 5)], layout=lay)
    for npts, n in ((12, 2), (300, 40), (1200, 300)) + (((70000, 50),) if tier == "thorough" or not sp.slow else ()):
        yield f"large-{npts}-{n}", P([(b0, n)], npts=npts, values="int" if "int" in sp.values else sp.values[0])
    # blocks
    lin = [t for t in T if t in SP.LIN]
    if sp.multi and sp.maxblocks > 1:
        for t in lin:
            yield f"multi-{t}", P([(t, 2), (t, 3)])
        yield "multi3", P([(b0, 2), (b0, 1), (b0, 3)])
    if sp.mixed and sp.maxblocks > 1:
        for a, b in itertools.permutations(T if tier == "thorough" else lin, 2):
            yield f"pair-{a}-{b}", P([(a, 2), (b, 3)])
        for a, b, c in itertools.permutations(lin, 3) if tier == "thorough" else list(itertools.permutations(lin, 3))[:: max(1, len(lin) * 2)]:
            yield f"tri-{a}-{b}-{c}", P([(a, 1), (b, 2), (c, 2)])
        if sp.multi:
            for a, b in itertools.permutations(lin[:6], 2):
                yield f"aba-{a}-{b}", P([(a, 2), (b, 3), (a, 1)])
                yield f"aab-{a}-{b}", P([(a, 2), (a, 1), (b, 2)])
            hi = [t for t in T if t not in SP.LIN and t != "polygon"]
            for a, b in zip(hi, hi[1:]):
                yield f"hi-{a}-{b}", P([(a, 2), (b, 3), (a, 1)])
            if "polygon" in T:
                yield "polygons-data", P([("triangle", 2), ("polygon5", 2), ("polygon7", 1), ("quad", 2)], cd=[["a", 0, "f8"], ["v", 3, "f8"]], pd=[["b", 0, "f8"]])
                yield "polygons", P([("polygon5", 2), ("polygon6", 3), ("polygon5", 1)])
                yield "polygons2", P([("triangle", 2), ("polygon5", 2), ("polygon7", 1), ("quad", 2)])
    if sp.empty:
        yield "empty-last", P([(b0, 2), (T[-2] if T[-1] == "polygon" else T[-1], 0)])
        yield "empty-first", P([(b0, 0), (b0, 2)])
        if sp.mixed:
            yield "empty-mid", P([(b0, 2), (lin[-1], 0), (b0, 1)])
    if sp.nocells:
        yield "nocells", P([], npts=4)
    # data
    mb = [[(b0, 5)]]
    if sp.multi and sp.maxblocks > 1:
        mb.append([(b0, 2), (b0, 3)])
    if sp.mixed and sp.maxblocks > 1:
        l2 = [t for t in lin if t != b0][:2]
        if l2:
            mb += [[(b0, 2), (l2[0], 3)], [(l2[0], 3), (b0, 1)]]
            if sp.multi:
                mb.append([(b0, 2), (l2[-1], 3), (b0, 1)])
    for bl in mb:
        for nc in sp.pd:
            for dt in sp.pd_dt:
                yield f"pd-{nc}-{dt}-{len(bl)}", P(bl, pd=[["a", nc, dt]])
        for nc in sp.cd:
            for dt in sp.cd_dt:
                yield f"cd-{nc}-{dt}-{len(bl)}", P(bl, cd=[["a", nc, dt]])
        if sp.pd and sp.names:
            yield f"pd-many-{len(bl)}", P(bl, pd=[["alpha", sp.pd[0], sp.pd_dt[0]], ["b", sp.pd[-1], sp.pd_dt[0]], ["c2", sp.pd[0], sp.pd_dt[-1]]])
        if sp.cd and sp.names:
            yield f"cd-many-{len(bl)}", P(bl, cd=[["alpha", sp.cd[0], sp.cd_dt[0]], ["b", sp.cd[-1], sp.cd_dt[0]]] + ([["c2", sp.cd[0], sp.cd_dt[-1]]] if sp.key != "dolfin" else []))
        if sp.pd and sp.cd:
            yield f"pdcd-{len(bl)}", P(bl, pd=[["a", sp.pd[0], sp.pd_dt[0]]], cd=[["a" if sp.key != "tecplot" else "ca", sp.cd[0], sp.cd_dt[0]], ["w", sp.cd[-1], sp.cd_dt[0]]])
            for lay in sp.layouts[1:]:
                yield f"pdcd-{lay}-{len(bl)}", P(bl, pd=[["a", sp.pd[-1], sp.pd_dt[0]]], cd=[["w", sp.cd[-1], sp.cd_dt[0]]], layout=lay)
            yield f"pdcd-huge-{len(bl)}", P(bl, pd=[["a", sp.pd[0], sp.pd_dt[0]]], cd=[["w", sp.cd[0], sp.cd_dt[0]]], values=sp.values[-1])
        for tg in sp.tags:
            yield f"tag-{tg}-{len(bl)}", P(bl, cd=[[tg, 0, "i4"]], ivalues="tag")
        if len(sp.tags) > 1:
            yield f"tags-{len(bl)}", P(bl, cd=[[tg, 0, "i4"] for tg in sp.tags], ivalues="tag")
        if sp.ps:
            yield f"ps-{len(bl)}", P(bl, npts=30, ps=[["s", [0, 2]], ["t", [1, 3, 4, 5, 7]], ["u", list(range(0, 30))], ["v", list(range(3, 19))]])
        if sp.cs:
            yield f"cs-{len(bl)}", P(bl, cs=[["s", [[0] for t, n in bl]], ["t", [list(range(n)) for t, n in bl]]])
            yield f"cs-part-{len(bl)}", P(bl, cs=[["s", [[0] if k == len(bl) - 1 else [] for k in range(len(bl))]], ["t", [[n - 1] if k == 0 else [] for k, (t, n) in enumerate(bl)]]])
            big = [(t, 45) for t, n in bl]
            yield f"cs-big-{len(bl)}", P(big, cs=[["s", [list(range(0, 45, 2)) for _ in bl]], ["t", [list(range(16)) for _ in bl]], ["w", [list(range(40)) for _ in bl]]])
    if sp.pd and sp.cd:
        yield "big-data", P([(b0, 3000)], npts=2500, pd=[["a", sp.pd[-1], sp.pd_dt[0]]], cd=[["w", sp.cd[0], sp.cd_dt[0]]])
    # sizes at which a narrower integer type, a fixed-width field or a buffer would overflow
    for npts in (127, 128, 129, 255, 256, 257, 999, 1000, 1001, 9999, 10001, 32767, 32769, 65535, 65537, 100001):
        if npts > 20000 and tier == "quick" and sp.slow:
            continue
        yield f"npts-{npts}", P([(b0, 4)], npts=npts, values="int" if "int" in sp.values else sp.values[0], last=True)
    for n in (127, 129, 255, 257, 1001, 4097) + ((33000, 66000) if tier == "thorough" or not sp.slow else ()):
        yield f"ncells-{n}", P([(b0, n)], npts=40)
    # every small count (lines that hold a fixed number of entries) and arrays that fill buffers exactly
    dd = dict(pd=[["a", sp.pd[0], sp.pd_dt[0]]] if sp.pd else [], cd=[["q", sp.cd[0], sp.cd_dt[0]]] if sp.cd else [])
    for n in list(range(8, 42)) + [48, 50, 60, 64, 80, 96, 100, 120, 128, 160]:
        yield f"count-{n}", P([(b0, n)], npts=n, **dd)
    for n in (512, 1024, 2048, 4096, 8192):
        if n > (512 if sp.key == "wkt" else 1024) and (tier == "quick" and sp.slow or sp.key == "wkt"):
            continue
        yield f"buffer-{n}", P([(b0, n)], npts=n, **dd)
    # many blocks, many arrays: lexicographic order of numbered names differs from numeric order
    if sp.multi and sp.maxblocks > 12:
        yield "blocks-13", P([(T[i % len(lin)] if sp.mixed and T[i % len(lin)] != "polygon" else b0, 1 + i % 3) for i in range(13)],
                             cd=[["q", sp.cd[0], sp.cd_dt[0]]] if sp.cd else [], **({"npts": 40}))
    many = [f"p{j}" for j in range(12)]
    if sp.pd and sp.names:
        yield "pd-12", P([(b0, 3)], pd=[[nm, sp.pd[j % len(sp.pd)], sp.pd_dt[j % len(sp.pd_dt)]] for j, nm in enumerate(many)])
        yield "pd-12r", P([(b0, 3)], pd=[[nm, sp.pd[0], sp.pd_dt[0]] for j, nm in enumerate(many[::-1])])
    if sp.cd and sp.names and sp.key != "dolfin":
        yield "cd-12", P([(b0, 3)], cd=[["c" + nm, sp.cd[j % len(sp.cd)], sp.cd_dt[j % len(sp.cd_dt)]] for j, nm in enumerate(many)])
        yield "cd-12r", P([(b0, 3)], cd=[["c" + nm, sp.cd[0], sp.cd_dt[0]] for j, nm in enumerate(many[::-1])])
    for nm in sp.odd_names:
        if sp.pd:
            yield f"pname-{nm}", P([(b0, 3)], pd=[[nm, sp.pd[0], sp.pd_dt[0]], ["zz", sp.pd[-1], sp.pd_dt[0]]])
        if sp.cd:
            yield f"cname-{nm}", P([(b0, 3)], cd=[[nm, sp.cd[0], sp.cd_dt[0]]] + ([["zz", sp.cd[-1], sp.cd_dt[0]]] if sp.key != "dolfin" else []))
    if sp.wide:
        for dt in sp.pd_dt:
            if dt[0] in "iu":
                yield f"wide-{dt}", P([(b0, 6)], pd=[["a", sp.pd[0], dt]] if sp.pd else [], cd=[["b", sp.cd[0], dt]] if sp.cd else [], ivalues="wide")
    if "huge" in sp.values:
        for d in dims:
            yield f"special-{d}", P([(b0, 6)], npts=60, dim=d, values="special", pd=[["a", sp.pd[0], "f8"]] if sp.pd and "f8" in sp.pd_dt else [], cd=[["b", sp.cd[0], "f8"]] if sp.cd and "f8" in sp.cd_dt else [])
    for dt in sp.pd_dt if sp.tensor else ():
        yield f"tensor-{dt}", P([(b0, 5)], pd=[["a", [3, 3], dt], ["s", 0, dt]], cd=[["b", [2, 2], dt], ["q", 0, dt]])
    # random combinations
    nrand = 250 if tier == "quick" else 2000
    for i in range(nrand):
        r = rnd
        nb = 1 if not (sp.multi or sp.mixed) else r.choice([1, 1, 2, 3, 4, 5])
        nb = min(nb, sp.maxblocks)
        pool = [t for t in T if t != "polygon"] + (["polygon5", "polygon6", "polygon8"] if "polygon" in T else [])
        if not sp.mixed:
            t = r.choice(pool)
            bl = [(t, r.choice([1, 2, 3, 5, 9, 20])) for _ in range(nb if sp.multi else 1)]
        elif not sp.multi:
            bl = [(t, r.choice([1, 2, 3, 5, 9, 20])) for t in r.sample(pool, min(nb, len(pool)))]
        else:
            sub = r.sample(pool, min(len(pool), 3))
            bl = [(r.choice(sub), r.choice([1, 2, 3, 5, 9, 20] + ([0] if sp.empty else []))) for _ in range(nb)]
            if not any(n for _, n in bl):
                bl[0] = (bl[0][0], 2)
        k = dict(npts=pts_for(bl, r.choice([0, 1, 5, 40])), dim=r.choice(list(dims)), pdtype=r.choice(sp.pdt), cdtype=r.choice(sp.cdt),
                 layout=r.choice(sp.layouts), values=r.choice(sp.values), seed=r.randrange(10 ** 6), over=r.choice([0, 1]), path=r.choice([0, 1]))
        if sp.pd:
            k["pd"] = [[f"p{j}", r.choice(sp.pd), r.choice(sp.pd_dt)] for j in range(r.choice([0, 1, 2]))]
        if sp.cd:
            k["cd"] = [[f"q{j}", r.choice(sp.cd), r.choice(sp.cd_dt)] for j in range(r.choice([0, 1, 2]))]
            if sp.key == "dolfin":
                k["cd"] = k["cd"][:1]
        yield f"rand-{i}", P(bl, **k)

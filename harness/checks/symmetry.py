"""Pairs of real runs for the Symmetry specification: rotation (C05), reflection (C04), hemisphere restriction (C03)."""
import numpy as np
from vf import scen, rec

DIMS = {**{n: "zyx" for n in scen.INTERP + scen.LAYER + ["lwa"]}, **{n: "zy" for n in scen.REF},
        **{n: "yx" for n in scen.BARO}, "stat": "z", "stat_n": "z", "stat_s": "z"}
GLOBAL = set(scen.INTERP) | {"stat", "stat_n", "stat_s"}
TWIN = {"ep2": "ep3", "ep3": "ep2", "stat_n": "stat_s", "stat_s": "stat_n"}


def outputs(s, inp, nc):
    q = scen.pipeline(s, inp, ncforce=nc)
    o = scen.outputs(q, [n for n in scen.ALL if n != "static_stability"])
    st = q.static_stability
    if isinstance(st, tuple):
        o["stat_s"], o["stat_n"] = (np.array(x, float) for x in st)
    elif scen.full(s)["cls"] == "NHN22":
        o["stat_n"] = np.array(st, float)
    else:
        o["stat"] = np.array(st, float)
    return o


def analysis_run(s, inp):
    """The reference states of the same input on the grid that has an equator row."""
    f = scen.full(s)
    if f["nlat"] % 2:
        return scen.pipeline({**s, "nh": False}, inp, upto="ref")
    n, y = f["nlat"], inp["ylat"]
    ya = np.linspace(y[0], y[-1], n + 1)
    i2 = dict(inp, ylat=np.where(np.abs(ya) < 1e-9, 0.0, ya))
    for k in "uvt":
        x = np.moveaxis(inp[k], 1, 0)
        out = np.empty((n + 1,) + x.shape[1:])
        for j in range(n + 1):
            w = j / n
            out[j] = (1 - w) * x[min(j, n - 1)] + w * x[max(j - 1, 0)]
        i2[k] = np.moveaxis(out, 0, 1)
    return scen.pipeline({**s, "nlat": n + 1, "nh": False}, i2, upto="ref")


def forcing(s, inp, tol=2e-4, equator=False):
    """Random forcing, zero where QGPV ties with a reference value: there the displaced area is decided by rounding."""
    f = scen.full(s)
    rng = np.random.default_rng(f["seed"] + 99)
    nc = rng.normal(size=(f["kmax"], f["nlat"], f["nlon"])) * 1e-10
    q = analysis_run(s, inp)
    pv, ref = np.asarray(q.qgpv), np.asarray(q.qref)
    na = pv.shape[1]
    eq, tie = na // 2, np.zeros(pv.shape, bool)
    sc = np.abs(pv).max()
    for j in range(na):
        if j != eq or equator:
            rows = slice(eq, na) if j > eq else slice(0, eq + 1) if j < eq else slice(0, na)
            tie[:, rows] |= np.abs(pv[:, rows] - ref[:, j][:, None, None]) < tol * sc
    if na == f["nlat"]:
        nc[tie] = 0.0
    else:
        nc[tie[:, 1:] | tie[:, :-1]] = 0.0
    return nc


def flip(x, n):
    d = DIMS[n]
    return x if d == "z" else np.flip(x, axis=d.index("y"))


def encode(a, b, tr, names):
    """Fixed point with a scale common to a row, its mirror image and both runs."""
    A, B = {}, {}
    for n in names:
        x, y = a[n], b[n]
        d = DIMS[n]
        if n in ("ptref", "interpolated_theta"):            # deviations from the level's mean
            ax = tuple(range(1, x.ndim))
            m = 0.5 * (x + flip(x, n)).mean(axis=ax, keepdims=True)
            x, y = x - m, y - m
        pool = [x, y] if x.shape == y.shape else [x, np.concatenate(
            [np.zeros_like(np.take(x, range(x.shape[d.index("y")] - y.shape[d.index("y")]), axis=d.index("y"))), y],
            axis=d.index("y"))]
        if tr == "mirror":
            t = TWIN.get(n, n)
            o = [a[t], b[t]]
            if n in ("ptref", "interpolated_theta"):
                o = [u - m for u in o]
            pool += [flip(u, n) for u in pool] + o + [flip(u, n) for u in o]
        pk = np.max([np.abs(np.nan_to_num(u)) for u in pool], axis=0)
        tot = max(float(pk.max()), 1e-300)
        if d.endswith("x"):
            row = pk.max(axis=-1, keepdims=True)
            lev = pk.max(axis=(-1, -2), keepdims=True)
        elif d == "zy":
            row = lev = pk.max(axis=-1, keepdims=True)
        else:
            row = lev = pk
        sc = np.maximum(np.maximum(row, lev / 64), tot / 1024)
        sx = sc
        sy = sc if x.shape == y.shape or d == "z" else np.take(
            sc, range(sc.shape[d.index("y")] - y.shape[d.index("y")], sc.shape[d.index("y")]),
            axis=d.index("y")) if sc.shape[d.index("y")] > 1 else sc
        A[n], B[n] = rec.q(x, sx), rec.q(y, sy)
    return A, B


def pair(s, tr, d=0):
    f = scen.full(s)
    inp = scen.inputs(s)
    nc = forcing(s, inp)
    a = outputs(s, inp, nc)
    t, m, s2 = dict(inp), nc, s
    if tr == "rotate":
        t.update({k: np.roll(inp[k], d, axis=2) for k in "uvt"})
        m = np.roll(nc, d, axis=2)
        t["xlon"] = inp["xlon"] + (0.0, -180.0, 7.5)[s["seed"] % 3]        # nor does it matter where longitudes begin
    elif tr == "mirror":
        t.update({k: sg * inp[k][:, ::-1].copy() for k, sg in (("u", 1), ("v", -1), ("t", 1))})
        m = -nc[:, ::-1].copy()
    else:
        s2 = {**s, "nh": True}
    b = outputs(s2, t, m)
    names = [n for n in DIMS if n in a and n in b]
    A, B = encode(a, b, tr, names)
    return {"tr": tr, "nlat": f["nlat"], "nlon": f["nlon"], "d": d, "levels": f["kmax"], "nh": bool(f["nh"]),
            "shared": f["cls"] == "NHN22" and f["eqb"] == 0,
            "out": names, "a": A, "b": B}


def scenarios(ctx, tr):
    base = scen.spread(ctx)
    if tr != "rotate":
        base = [{**s, "nh": False} for s in base]
    reps = 1 if ctx.quick else 12
    for r in range(reps):
        for i, s in enumerate(base):
            s = dict(s, seed=1000 * ctx.seed + 100 * r + i)
            if r:
                s["kind"] = ("generic", "rough")[(r + i) % 2]
            yield f"{r}-{i}", s


def generate_for(tr):
    def generate(ctx):
        for cid, s in scenarios(ctx, tr):
            f = scen.full(s)
            ds = [0]
            if tr == "rotate":
                k = int(cid.split("-")[1])
                ds = [1 + k % (f["nlon"] - 1)] if ctx.quick else sorted({1, f["nlon"] // 2, f["nlon"] - 1})
            for d in ds:
                ctx.case(f"{tr}-{cid}-{d}", f"{tr} {d or ''} {scen.name(s)}", lambda s=s, d=d: pair(s, tr, d),
                         replay={"scenario": s, "transformation": tr, "shift": d})
    return generate

"""Runs on every kind of grid recorded for the UserGrid specification (C10)."""
import numpy as np
from vf import scen, rec, cubic
from checks.symmetry import DIMS, forcing

OUT = [n for n in scen.ALL if n != "static_stability"] + ["heating", "lwa:only", "lwa_baro:only", "u_baro:only"]
D = {**DIMS, "heating": "zyx", "lwa:only": "zyx", "lwa_baro:only": "yx", "u_baro:only": "yx"}


def grid(s):
    return s.get("grid", "poles")


def lat(s):
    n = scen.full(s)["nlat"]
    if grid(s) == "poles" or n % 2:
        y = np.linspace(-90.0, 90.0, n)
        if n % 2:
            y[n // 2] = 0.0
        return y
    return -90.0 + (np.arange(n) + 0.5) * 180.0 / n


def inputs(s):
    inp = scen.inputs(s)
    if grid(s) == "centres":                  # the same rows, at other latitudes
        inp["ylat"] = lat(s)
    return inp


def analysed(s, F):
    """F on the rows of the input, axis 1 -> on the grid with an equator row"""
    n = F.shape[1]
    F = np.moveaxis(np.asarray(F, float), 1, 0)
    if grid(s) == "poles":
        A = np.array([((n - j) * F[min(j, n - 1)] + j * F[max(j - 1, 0)]) / n for j in range(n + 1)])
    else:
        A = np.array([(3 * F[0] - F[1]) / 2] + [(F[j - 1] + F[j]) / 2 for j in range(1, n)] + [(3 * F[-1] - F[-2]) / 2])
    return np.moveaxis(A, 0, 1)


def run(s, inp, nc, heat, obj=None):
    q = obj or scen.make(s, inp)
    tup = {}
    ids = rec.Intern()
    first = q.interpolate_fields()
    tup["interp"] = [ids(x) for x in first]
    tup["ref"] = [ids(x) for x in q.compute_reference_states()]
    tup["flux"] = [ids(x) for x in q.compute_lwa_and_barotropic_fluxes(ncforce=nc)]
    o = {n: getattr(q, n) for n in OUT if n != "heating" and ":" not in n and n not in scen.LAYER}
    o = {k: np.array(v, float) for k, v in o.items()}
    q.compute_layerwise_lwa_fluxes(ncforce=nc)
    o.update({n: np.array(getattr(q, n), float) for n in scen.LAYER})
    q.compute_lwa_only()
    o.update({n + ":only": np.array(getattr(q, n), float) for n in ("lwa", "lwa_baro", "u_baro")})
    o["heating"] = np.array(q.compute_ncforce_from_heating_rate(heat), float)
    st = q.static_stability
    idl = {n: [ids(v)] for n, v in o.items()}
    idl["static_stability"] = [ids(st)]
    if not isinstance(st, tuple) and isinstance(first[-1], tuple) and rec.digest(first[-1][1]) == rec.digest(st):
        idl["static_stability"].append(tup["interp"][-1])      # NHN22 shows the northern one of the two in northern-only mode
    o["static_stability"] = np.array(st, float)
    return q, o, tup, idl


def slabs(o, n):
    return o[:, :, None] if D[n] == "zy" else o[None] if D[n] == "yx" else o


def record(s, alias=False):
    f = scen.full(s)
    n, K = f["nlat"], f["kmax"]
    inp = inputs(s)
    rng = np.random.default_rng(f["seed"] + 5)
    nc = rng.normal(size=(K, n, f["nlon"])) * 1e-10
    even = n % 2 == 0
    ia = None
    if even:
        y = np.linspace(-90.0, 90.0, n + 1)
        y[n // 2] = 0.0
        ia = dict(inp, ylat=y, **{k: analysed(s, inp[k]) for k in "uvt"})
        pv = scen.pipeline({**s, "nlat": n + 1, "nh": False}, ia, upto="ref")
        nc = quiet(nc, pv)
    heat = rng.normal(size=inp["t"].shape) * 1e-4
    q, o, tup, ids = run(s, inp, nc, heat)
    idx = {float(v): j + 1 for j, v in enumerate(inp["ylat"])}
    r = dict(g=grid(s), n=n, m=f["nlon"], K=K, nh=bool(f["nh"]), shape={k: list(v.shape) for k, v in o.items() if k != "static_stability"},
             nan=[k for k, v in o.items() if not np.isfinite(v).all()], tuples=tup, ids=ids,
             coords=dict(x=rec.digest(q.xlon), xin=rec.digest(inp["xlon"]), y=rec.digest(q.ylat), yin=rec.digest(inp["ylat"])),
             yref=[idx.get(float(v), 0) for v in q.ylat_ref_states],
             latdim=int(q.get_latitude_dim()), yana=rec.q(np.asarray(q.ylat_ref_states_analysis, float) / 90 * n * (n - 1), 1.0, 64), z=rec.q(np.asarray(q.height, float) / f["dz"], 1.0, 1024), tol=1024)
    if alias:
        from falwa.oopinterface import QGField
        kw = scen.kwargs(s)
        q2 = QGField(inp["xlon"], inp["ylat"], inp["plev"], inp["u"], inp["v"], inp["t"], **kw)
        _, o2, _, _ = run(s, inp, nc, heat, q2)
        same = lambda a, b: np.array_equal(a, b, equal_nan=True)
        r["alias"] = {k: ids[k][0] if same(v, o[k]) else 0 for k, v in o2.items() if k in ids}
    if even:
        _, oa, _, _ = run({**s, "nlat": n + 1}, ia, analysed(s, nc), analysed(s, heat))
        r["o"] = []
        for k in OUT:
            v, a = slabs(o[k], k), slabs(oa[k], k)
            if a.shape[1] != v.shape[1] + 1:
                continue                        # reported as a wrong shape
            lo, hi = a[:, :-1], a[:, 1:]
            if k in ("ptref", "interpolated_theta"):
                mean = a.mean(axis=(1, 2), keepdims=True)
                v, lo, hi = v - mean, lo - mean, hi - mean
            pk = np.nan_to_num(np.maximum(np.maximum(np.abs(lo), np.abs(hi)), 0))
            sc = np.maximum(np.maximum(pk.max(axis=2, keepdims=True), pk.max(axis=(1, 2), keepdims=True) / 64), max(pk.max() / 1024, 1e-300))
            r["o"].append(dict(n=k, lo=rec.q(lo, sc), hi=rec.q(hi, sc), out=rec.q(v, sc)))
    return r


def quiet(nc, q, tol=2e-4):
    """no forcing where QGPV ties with a reference value: there the displaced area is decided by rounding"""
    pv, ref = np.asarray(q.qgpv), np.asarray(q.qref)
    na = pv.shape[1]
    eq, tie, sc = na // 2, np.zeros(pv.shape, bool), np.abs(pv).max()
    for j in range(na):
        rows = slice(eq, na) if j > eq else slice(0, eq + 1) if j < eq else slice(0, na)
        tie[:, rows] |= np.abs(pv[:, rows] - ref[:, j][:, None, None]) < tol * sc
    return np.where(tie[:, 1:] | tie[:, :-1], 0.0, nc)


def line(s):
    """u, v and potential temperature linear in latitude and in height"""
    f = scen.full(s)
    n, K = f["nlat"], f["kmax"]
    inp = inputs(s)
    H, kap = f["h"], f["rr"] / f["cp"]
    z = -H * np.log(inp["plev"] / 1000.0)
    L = (2 * np.arange(n) - (n - 1)) * n if grid(s) == "poles" else (2 * np.arange(n) + 1 - n) * (n - 1)
    co = {"u": (9, 1, 40), "v": (-20, 2, -11), "t": (30000, -3, 900)}
    for k, (a, b, c) in co.items():
        F = (a + b * L[None, :, None] + c * (z / f["dz"])[:, None, None]) * np.ones((1, 1, f["nlon"])) * 0.01
        inp[k] = F * np.exp(-kap * z / H)[:, None, None] if k == "t" else F
    q = scen.pipeline(s, inp, upto="interp")
    out = []
    for k, nm in (("u", "interpolated_u"), ("v", "interpolated_v"), ("t", "interpolated_theta")):
        a, b, c = co[k]
        out.append(dict(n=nm, a=a * 64, b=b * 64, c=c * 64, out=rec.q(np.array(getattr(q, nm), float), 0.01, 64)))
    return dict(line=out, g=grid(s), n=n, K=K, m=f["nlon"], tol=1)


def scenarios(ctx):
    base = [dict(s) for s in scen.spread(ctx)]
    more = []
    for i, s in enumerate(base):                       # every kind of scenario on an even grid of either kind
        f = scen.full(s)
        n = f["nlat"] if f["nlat"] % 2 == 0 else f["nlat"] + (1 if i % 3 else 3)
        more.append(dict(s, nlat=n, grid=("centres", "poles")[i % 2], nh=bool(i % 4 in (1, 2))))
    more += [dict(cls="NH18", nlat=6, nlon=5, kmax=6, grid="poles"), dict(cls="NH18", nlat=8, nlon=4, kmax=5, grid="centres", nh=True),
             dict(cls="NHN22", nlat=30, nlon=4, kmax=6, eqb=3, grid="centres"), dict(cls="NHN22", nlat=26, nlon=4, kmax=6, eqb=5, grid="poles", nh=True)]
    # the smallest grids there are
    for i in range(24 if ctx.quick else 60):
        n, cls = 4 + i % 6, ("NH18", "NHN22")[i // 6 % 2]
        s = dict(cls=cls, nlat=n, nlon=2 + i % 3, kmax=3 + (i // 2) % 3, nlev=8, nh=bool(i // 12 % 2), grid=("poles", "centres")[i // 3 % 2])
        if cls == "NHN22":
            s["eqb"] = i // 5 % (n // 2 - 1)
        more.append(s)
    if not ctx.quick:
        more += [dict(cls="NH18", nlat=121, nlon=24, kmax=24, dz=1000.0, nlev=20), dict(cls="NHN22", nlat=90, nlon=36, kmax=30, dz=1000.0, nlev=24, eqb=5, grid="centres")]
    for r in range(1 if ctx.quick else 8):
        for i, s in enumerate(base + more):
            s = dict(s, seed=3000 * ctx.seed + 100 * r + i)
            if r:
                s["kind"] = ("generic", "rough")[(r + i) % 2]
                if scen.full(s)["nlat"] % 2 == 0:
                    s["grid"] = ("poles", "centres")[(r + i) % 2]
            yield f"{r}-{i}", s


def generate(ctx):
    for cid, s in scenarios(ctx):
        nm = " ".join(f"{k}={v}" for k, v in s.items())
        ctx.case(f"run-{cid}", f"run {nm}", lambda s=s: record(s, scen.full(s)["cls"] == "NH18" and s["seed"] % 3 == 0), replay={"scenario": s})
        ctx.case(f"line-{cid}", f"line {nm}", lambda s=s: line(s), replay={"scenario": s, "line": True})

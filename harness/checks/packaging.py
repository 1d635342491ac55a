"""Requests made of QGDataset for the Packaging specification (C17)."""
import json, os
import numpy as np
from vf import rec

F = ["u", "v", "t"]
GRID = {g: False for g in ("latitudes ascend", "latitudes kept", "longitudes kept", "slices kept")}


def prepare(work, seed, tier, log):
    from vf import tlc
    cfg = f"SPECIFICATION Spec\nCONSTANT MaxEdits = {2 if tier == 'quick' else 3}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    out, st, err = tlc.run("Packaging_Model", cfg, workers=1)
    rs = sorted({json.loads(line).split("|", 1)[1] for line in out.splitlines() if line.startswith('"REQ|')})
    if not rs:
        raise RuntimeError("no requests from TLC: " + out[-1000:] + err[-500:])
    log("requests from TLC:", len(rs))
    rng = np.random.default_rng(seed)
    cap = 2800 if tier == "quick" else 40000
    if len(rs) > cap:
        rs = [rs[i] for i in np.sort(rng.choice(len(rs), cap, replace=False))]
    with open(os.path.join(work, "reqs.json"), "w") as f:
        f.write("[" + ",".join(rs) + "]")


_pool = {}


def pool():
    """the data of each argument, ascending latitude and falling pressure, and what QG fields make of them"""
    if not _pool:
        from falwa.oopinterface import QGFieldNH18
        rng = np.random.default_rng(5)
        ids = rec.Intern()
        y, x, p = np.linspace(-90, 90, 5), np.arange(4) * 90.0, 1000.0 * np.exp(-np.arange(4) * 2000.0 / 7000.0)
        y[2] = 0.0
        d = {b: {f: (250.0 if f == "t" else 0.0) + rng.normal(size=(2, 4, 5, 4)) for f in F} for b in F}
        want = {b: {f: [] for f in F} for b in F}
        for b in F:
            for s in range(2):
                q = QGFieldNH18(x, y, p, *(d[b][f][s] for f in F), kmax=4, dz=2000.0)
                o = q.interpolate_fields(return_named_tuple=False)
                for f, n in zip(F, ("interpolated_u", "interpolated_v", "interpolated_theta")):
                    want[b][f].append(ids(getattr(q, n)))
        _pool.update(x=x, y=y, p=p, d=d, want=want, ids=ids)
    return _pool


def request(r, k):
    import xarray as xr
    from falwa.xarrayinterface import QGDataset
    P = pool()
    n = r["slices"]
    cn = r["cname"]
    x, y, p = P["x"], P["y"], P["p"]
    tn, tl = ("time", np.array(["2001-02-03", "2001-01-01"], dtype="datetime64[ns]")) if k % 2 else ("member", np.array([9, 4]))
    yy = y if r["lat"] == "up" else y[::-1]
    pp = p if r["lev"] == "down" else p[::-1]
    std = ([tn] if n else []) + [cn["plev"], cn["ylat"], cn["xlon"]]

    def array(b, f):
        a = P["d"][b][f] if n else P["d"][b][f][0]
        if r["lat"] == "down":
            a = a[..., ::-1, :]
        if r["lev"] == "up":
            a = a[..., ::-1, :, :]
        co = {cn["plev"]: pp, cn["ylat"]: yy, cn["xlon"]: x}
        if n:
            co[tn] = tl
        if r["label"] == b:
            c = [cn["plev"], cn["ylat"], cn["xlon"], *([tn] if n else [])][k % (4 if n else 3)]
            co[c] = co[c] + (co[c].dtype.type(1) if co[c].dtype.kind != "M" else np.timedelta64(1, "D"))
        da = xr.DataArray(a, dims=std, coords=co, name=[None, "any", f][k % 3])
        o = r["order"][f]
        t = list(std)
        if o == "swapped":
            t[-3], t[-2] = t[-2], t[-3]
        elif o == "lonfirst":
            t = t[:-3] + [t[-1], t[-3], t[-2]]
        elif o == "extra last":
            t = t[1:] + t[:1]
        return da.transpose(*t)

    def box(b):
        kind = r["box"][b]
        if kind == "none":
            return None
        if kind == "wrong":
            return [np.zeros((4, 5, 4)), "u", {"u": 1}][k % 3]
        if kind == "array":
            return array(b, b)
        return xr.Dataset({r["name"][f]: array(b, f).rename(r["name"][f]) for f in F if r["held"][b][f]})
    try:
        args = [box(b) for b in F]
    except ValueError:              # such a dataset cannot be made: its own labels differ
        return None
    own = dict(r["own"])
    kw = dict(qgfield_kwargs=dict(kmax=4, dz=2000.0))
    if own or k % 2:
        kw["var_names"] = own
    try:
        q = QGDataset(*args[:2], **({"da_t": args[2]} if k % 2 else {}), **kw) if args[2] is None or k % 2 else QGDataset(*args, **kw)
    except (KeyError, AssertionError, ValueError) as e:
        return dict(out=[t.__name__ for t in (KeyError, AssertionError, ValueError) if isinstance(e, t)][0], err=str(e)[:120], grid=GRID)
    except Exception as e:
        return dict(out=type(e).__name__, err=str(e)[:120], grid=GRID)
    out = q.interpolate_fields()
    g = dict(GRID)
    g["latitudes ascend"] = bool(np.all(np.diff(out["ylat"].values) > 0))
    g["latitudes kept"] = np.array_equal(out["ylat"].values, y)
    g["longitudes kept"] = np.array_equal(out["xlon"].values, x)
    g["slices kept"] = (np.array_equal(out[tn].values, tl) if n else True) if (tn in out.dims) == (n > 0) else False
    pick = (lambda v: [v.isel({tn: s}).values for s in range(2)]) if n else (lambda v: [v.values])
    field = {f: [P["ids"](v) for v in pick(out[nm])] for f, nm in zip(F, ("interpolated_u", "interpolated_v", "interpolated_theta"))}
    return dict(out="ok", err="", grid=g, field=field, want={b: {f: P["want"][b][f][:n or 1] for f in F} for b in F})


def batch(rs, k0):
    got = [request(r, k0 + i) for i, r in enumerate(rs)]
    keep = [i for i, g in enumerate(got) if g is not None]
    return dict(reqs=[{**rs[i], "own": rs[i]["own"] or {}} for i in keep], got=[got[i] for i in keep])


def generate(ctx):
    with open("reqs.json") as f:
        rs = json.load(f)
    B = 50
    for k in range(0, len(rs), B):
        part = [{**r, "own": r["own"] if isinstance(r["own"], dict) else {}} for r in rs[k:k + B]]
        ctx.case(f"req-{k}", f"requests {k} to {k + len(part) - 1}", lambda part=part, k=k: batch(part, k), replay={"requests": part})

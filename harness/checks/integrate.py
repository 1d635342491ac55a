"""Runs of integrate_budget recorded for the Integrate specification (C18)."""
import itertools
import numpy as np
from vf import rec

ROLES = ["lwa_baro", "convergence_zonal_advective_flux", "divergence_eddy_momentum_flux", "meridional_heat_flux"]
TIMES = ["time", "date", "datetime", "valid_time"]


def build(seed):
    """A dataset of integer-valued terms along some time axis, and the request: everything drawn from the seed"""
    import xarray as xr
    rng = np.random.default_rng(seed)
    N = int(rng.integers(1, 9) if rng.random() < 0.9 else rng.integers(9, 125))
    unit = ["s", "ms", "us", "ns"][seed % 4]
    half = 1 if unit != "s" and rng.random() < 0.5 else 2             # half seconds
    steps = rng.integers(1, (5000, 90000)[int(rng.integers(2))], size=N - 1) * half
    if rng.random() < 0.3:
        steps[:] = 7200 * half
    t = np.concatenate([[0], np.cumsum(steps)]).astype(int)           # in half seconds
    if rng.random() < 0.15:                                           # latest first
        t = t[::-1].copy()
    t0 = np.datetime64("2000-02-28T12:00:00") + np.timedelta64(int(rng.integers(0, 10 ** 9)), "s")
    stamps = (t0.astype("datetime64[ms]") + t * np.timedelta64(500, "ms")).astype(f"datetime64[{unit}]")
    axis = rng.random()
    if axis < 0.2:                                                    # another calendar
        import cftime
        import datetime
        cal = ["noleap", "360_day", "julian", "proleptic_gregorian"][seed % 4]
        at0 = cftime.datetime(2000 + seed % 100, 2, 27, 12, calendar=cal)
        stamps = np.array([at0 + datetime.timedelta(milliseconds=int(x) * 500) for x in t], dtype=object)
    elif axis < 0.3:                                                  # time since something
        stamps = stamps - t0.astype(stamps.dtype) + np.timedelta64(int(rng.integers(0, 10 ** 6)), "s").astype(f"timedelta64[{unit}]")
    own = {}
    tname = TIMES[int(rng.integers(4))]
    if rng.random() < 0.4:
        tname = own["time"] = "when"
    names = {}
    for r in ROLES:
        names[r] = r
        if rng.random() < 0.25:
            names[r] = own[r] = "my_" + r
    extra = [("ylat", int(rng.integers(1, 4)), np.sort(rng.choice(180, 3, replace=False)) - 90.0),
             ("xlon", int(rng.integers(1, 4)), np.arange(3) * 120.0), ("member", int(rng.integers(1, 3)), np.array([7, 3]))]
    extra = [e for e in extra if rng.random() < 0.75]
    data, coords = {}, {tname: (tname, stamps)}
    for n, k, lab in extra:
        coords[n] = (n, lab[:k])
    sizes = {tname: N, **{n: k for n, k, _ in extra}}
    base = [tname] + [n for n, _, _ in extra]
    raw = {}
    dt = np.float32 if rng.random() < 0.2 else np.float64
    for r in ROLES:
        a = rng.integers(-40, 41, size=[sizes[d] for d in base])
        raw[r] = a.reshape(N, -1)
        order = [base[i] for i in rng.permutation(len(base))] if rng.random() < 0.5 else base
        data[names[r]] = xr.DataArray((a / 1.0).astype(np.float64 if r != "lwa_baro" else dt), dims=base).transpose(*order)
    if rng.random() < 0.5:
        data["u_baro"] = xr.DataArray(rng.normal(size=(N,)), dims=[tname])
    if rng.random() < 0.5:
        coords["step"] = (tname, np.arange(N))
    if rng.random() < 0.5:
        coords["run"] = ((), 17)
    attrs = {"protocol": "QGFieldNH18", "kmax": 49} if rng.random() < 0.8 else {}
    ds = xr.Dataset(data, coords, attrs)
    if rng.random() < 0.15:
        ds = ds.chunk({d: int(rng.integers(1, 4)) for d in base})
    fault = rng.random()
    if fault < 0.12:
        ds = ds.drop_vars(names[ROLES[int(rng.integers(4))]])
    elif fault < 0.2:
        own[(ROLES + ["time"])[int(rng.integers(5))]] = "not_there"
    elif fault < 0.24 and "time" in own:
        own.pop("time")
    return ds, own, tname, base, raw, t, t0, stamps


def record(seed):
    from falwa.xarrayinterface import integrate_budget
    ds, own, tname, base, raw, t, t0, stamps = build(seed)
    before = {k: rec.digest(v.values) for k, v in ds.variables.items()}
    r = dict(present=[str(k) for k in ds.variables], own=own, outcome="ok", t=t.tolist())
    try:
        out = integrate_budget(ds, var_names=own) if own or seed % 2 else integrate_budget(ds)
    except KeyError:
        return dict(r, outcome="KeyError")
    pts = base[1:]
    r["L"] = raw["lwa_baro"].T.tolist()
    r["X"] = [raw[k].T.tolist() for k in ROLES[1:]]
    r["vars"] = sorted(str(k) for k in out.data_vars)
    r["out"] = {}
    kept = {}
    for k, v in out.data_vars.items():
        kept["dims of " + k] = set(v.dims) == set(pts)
        r["out"][k] = [int(x) for x in rec.q(np.asarray(v.transpose(*pts).values, float).ravel(), 0.25, 1)] if set(v.dims) == set(pts) else []
    for k in ds.coords:
        kept["coordinate " + str(k)] = k in out.coords and out.coords[k].dims == ds.coords[k].dims and rec.digest(out.coords[k].values) == rec.digest(ds.coords[k].values)
    for k in ds.attrs:
        kept["attribute " + str(k)] = out.attrs.get(k) == ds.attrs[k]
    kept["input untouched"] = before == {k: rec.digest(v.values) for k, v in ds.variables.items()} and "integration_start" not in ds.attrs
    r["kept"] = {k: bool(v) for k, v in kept.items()}
    said = {str(x): int(v) for x, v in zip(stamps, t)}
    at = lambda s: said[s] if s in said else -1 if stamps.dtype.kind != "M" else int(round(float((np.datetime64(s).astype("datetime64[us]") - t0.astype("datetime64[us]")) / np.timedelta64(1, "us")) / 500000))
    r["start"], r["stop"] = at(out.attrs["integration_start"]), at(out.attrs["integration_stop"])
    r["secs"] = int(rec.q(float(out.attrs["integration_seconds"]), 0.5, 1))
    return r


def generate(ctx):
    for k in range(240 if ctx.quick else 6000):
        sd = 10000 * ctx.seed + k
        ctx.case(f"budget-{sd}", f"budget terms, draw {sd}", lambda sd=sd: record(sd), replay={"draw": sd})

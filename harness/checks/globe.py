"""Hemispheres extended to the globe recorded for the Globe specification (C19)."""
import numpy as np
from vf import rec, scen


def build(seed):
    import xarray as xr
    rng = np.random.default_rng(seed)
    n = int(rng.integers(1, 7) if rng.random() < 0.9 else rng.integers(7, 92))
    lat = np.sort(rng.choice(np.arange(1, 90 * 64 + 1), n - 1, replace=False)) / 64.0
    lat = np.concatenate([[0.0], lat])
    if rng.random() < 0.3:
        lat[0] = rng.choice([5e-5, -5e-5, -0.0])
    near = False
    if rng.random() < 0.15:
        lat[0] = 1 / 64                       # no equator row
        lat[1:] += 1 / 64
        near = True
    lat = lat * (1 if rng.random() < 0.5 else -1)
    if rng.random() < 0.5:
        lat = lat[::-1].copy()
    if rng.random() < 0.15:
        lat = lat.astype(np.float32)
    own = {}
    yname = ["ylat", "lat", "latitude"][int(rng.integers(3))]
    if rng.random() < 0.3:
        yname = own["ylat"] = "phi"
    vname = ["v", "V"][int(rng.integers(2))]
    if rng.random() < 0.3:
        vname = own["v"] = "v_wind"
    if rng.random() < 0.15:
        vname = None
        own.pop("v", None)
    dims = {"time": 2, "plev": 2, "xlon": 3}
    use = [d for d in dims if rng.random() < 0.7]
    order = [*use, yname]
    order = [order[i] for i in rng.permutation(len(order))]
    sizes = {**dims, yname: len(lat)}
    data = {}
    for nm in ["u", "t", vname, "vort"] + (["v"] if vname == "v_wind" else []):
        if nm is None or rng.random() < 0.1 and nm != vname:
            continue
        o = order if rng.random() < 0.7 else order[::-1]
        a = rng.integers(-99, 100, size=[sizes[d] for d in o]).astype(float)
        if rng.random() < 0.1:
            a.ravel()[int(rng.integers(a.size))] = np.nan
        data[nm] = xr.DataArray(a, dims=o)
    if use and rng.random() < 0.6:
        data["ps"] = xr.DataArray(rng.normal(size=dims[use[0]]), dims=[use[0]])
    if rng.random() < 0.3:
        data["scalar"] = xr.DataArray(3.5)
    coords = {yname: (yname, lat)}
    for d in use:
        coords[d] = (d, {"time": np.array(["2001-01-01", "2001-01-05"], dtype="datetime64[ns]"), "plev": np.array([850.0, 300.0]),
                         "xlon": np.arange(3) * 120.0}[d])
    if rng.random() < 0.3:
        coords["run"] = ((), 4)
    return xr.Dataset(data, coords, {"title": "x"} if rng.random() < 0.7 else {}), own, yname, vname


def record(seed):
    from falwa.xarrayinterface import hemisphere_to_globe
    ds, own, yname, vname = build(seed)
    ids = rec.Intern()
    before = {k: rec.digest(v.values) for k, v in ds.variables.items()}
    lat = ds[yname].values.astype(float)
    r = dict(lat=[int(x) for x in np.rint(lat * 64)], outcome="ok")
    try:
        out = hemisphere_to_globe(ds, var_names=own) if own or seed % 2 else hemisphere_to_globe(ds)
    except AssertionError:
        return dict(r, outcome="AssertionError")
    r["glat"] = [int(x) for x in np.rint(out[yname].values.astype(float) * 64)]
    r["rows"], kept = [], {}
    for k, v in ds.data_vars.items():
        w = out.get(k)
        kept[f"{k}: dimensions"] = w is not None and w.dims == v.dims
        if w is None:
            continue
        if yname in v.dims:
            cut = lambda a: [ids(a.isel({yname: j}).values) for j in range(a.sizes[yname])]
            r["rows"].append(dict(n=str(k), odd=k == vname, plus=cut(v), minus=cut(-v), out=cut(w) if yname in w.dims else []))
        else:
            kept[f"{k}: no latitudes"] = rec.digest(v.values) == rec.digest(w.values)
    kept["variables"] = sorted(map(str, ds.data_vars)) == sorted(map(str, out.data_vars))
    for k in ds.coords:
        if k != yname:
            kept[f"coordinate {k}"] = k in out.coords and rec.digest(ds.coords[k].values) == rec.digest(out.coords[k].values)
    kept["own latitudes"] = all(x in out[yname].values for x in lat)
    kept["input untouched"] = before == {k: rec.digest(v.values) for k, v in ds.variables.items()}
    r["kept"] = {k: bool(v) for k, v in kept.items()}
    return r


def wave(s, south, flip):
    """A hemisphere of a synthetic atmosphere, extended and analysed"""
    import xarray as xr
    from falwa.xarrayinterface import QGDataset, hemisphere_to_globe
    f, inp = scen.full(s), scen.inputs(s)
    n = f["nlat"]
    rows = slice(0, n // 2 + 1) if south else slice(n // 2, n)
    inp["v"] = np.array(inp["v"])
    inp["v"][:, n // 2] = 0.0               # otherwise the equator row itself is not its own mirror image
    ds = xr.Dataset({k: (("plev", "ylat", "xlon"), inp[k][:, rows]) for k in "uvt"},
                    {"plev": inp["plev"], "ylat": inp["ylat"][rows], "xlon": inp["xlon"]})
    if flip:
        ds = ds.isel(ylat=slice(None, None, -1))
    q = QGDataset(hemisphere_to_globe(ds), qgfield=scen.cls_of(s), qgfield_kwargs=scen.kwargs(s))
    q.interpolate_fields(return_dataset=False)
    q.compute_reference_states(return_dataset=False)
    q.compute_lwa_only(return_dataset=False)
    w = q.lwa_baro.values
    return dict(wave=rec.q(w, rec.amax(w)))


def generate(ctx):
    for k in range(300 if ctx.quick else 8000):
        sd = 10000 * ctx.seed + k
        ctx.case(f"globe-{sd}", f"hemisphere, draw {sd}", lambda sd=sd: record(sd), replay={"draw": sd})
    for k, s in enumerate([dict(cls="NH18"), dict(cls="NHN22", nlat=17, eqb=2), dict(cls="NH18", nlat=15, kind="rough"), dict(cls="NHN22", nlat=15, eqb=1)]):
        s["seed"] = 100 * ctx.seed + k
        ctx.case(f"wave-{k}", f"wave activity of an extended hemisphere, {scen.name(s)}", lambda s=s, k=k: wave(s, k % 2 == 1, k > 1), replay={"scenario": s})

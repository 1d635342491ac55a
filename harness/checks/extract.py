"""Snapshots taken out of netCDF files, recorded for the Extract specification (C27)."""
import contextlib, io, os, tempfile
import numpy as np
from vf import rec
from vf.loose import loose


def dataset(rng):
    """some variables, with and without time, packed or not"""
    import xarray as xr
    sizes = {"time": int(rng.integers(1, 6) if rng.random() < 0.9 else rng.integers(6, 40)), "lev": 2, "lat": 3, "lon": 4}
    coords, enc = {}, {}
    r = rng.random()
    if r < 0.5:
        coords["time"] = ("time", np.datetime64("2001-01-01", "ns") + np.cumsum(rng.integers(1, 50, sizes["time"])) * np.timedelta64(3600, "s"))
    elif r < 0.7:
        coords["time"] = ("time", rng.permutation(100)[:sizes["time"]] / 4.0, {"long_name": "model day"})
    elif r < 0.8:
        coords["time"] = ("time", np.arange(sizes["time"]), {"units": "days since 2000-02-27", "calendar": "360_day"})
    for d in ("lev", "lat", "lon"):
        if rng.random() < 0.8:
            coords[d] = (d, np.sort(rng.permutation(50)[:sizes[d]]) * 1.5, {"units": "degrees"} if d != "lev" else {})
    data = {}
    for k in range(int(rng.integers(1, 4))):
        dims = ["time"] + [d for d in ("lev", "lat", "lon") if rng.random() < 0.6]
        dims = [dims[i] for i in rng.permutation(len(dims))] if rng.random() < 0.4 else dims
        a = rng.integers(-99, 100, [sizes[d] for d in dims])
        n = "UVT"[k]
        kind = rng.random()
        if kind < 0.3:
            a = a.astype(np.float32)
        elif kind < 0.8:
            a = a / 4.0
            if a.size and rng.random() < 0.3:
                a.flat[0] = np.nan
            if rng.random() < 0.3:
                enc[n] = {"dtype": "int16", "scale_factor": 0.25, "add_offset": 3.0, "_FillValue": -9999}
        data[n] = (dims, a, {"units": "m/s", "k": k} if rng.random() < 0.6 else {})
    if rng.random() < 0.6:
        data["orog"] = (("lat", "lon"), rng.normal(size=(3, 4)))
    if rng.random() < 0.3:
        data["p0"] = ((), 1000.0)
    ds = xr.Dataset(data, coords, {"title": "run", "n": 3} if rng.random() < 0.7 else {})
    if rng.random() < 0.06:
        ds = ds.rename(time="t")
    return ds, enc


def cut(ids, v, dim="time"):
    return [ids(v.isel({dim: i}).values) for i in range(v.sizes[dim])]


def record(seed, src_dir):
    import xarray as xr
    extract_one_timeslice = loose("netcdf_utils", src_dir).extract_one_timeslice
    rng = np.random.default_rng(seed)
    ids = rec.Intern()
    calls = []
    with tempfile.TemporaryDirectory(prefix="vf-nc-") as d:
        fn = os.path.join(d, "first.nc")
        ds, enc = dataset(rng)
        kw = {"unlimited_dims": ["time"]} if "time" in ds.dims and rng.random() < 0.5 else {}
        ds.to_netcdf(fn, encoding=enc, **kw)
        for c in range(int(rng.integers(1, 4))):
            if rng.random() < 0.04:
                fn = os.path.join(d, "missing.nc")
            there = os.path.exists(fn)
            raw = open(fn, "rb").read() if there else None
            with xr.open_dataset(fn) if there else contextlib.nullcontext() as src:
                src = src.load() if there else None
            n = -2 if not there else src.sizes.get("time", -1)
            k = max(n, 1)
            req = [int(x) for x in rng.integers(-k, k, int(rng.integers(1, 5)))]
            if rng.random() < 0.12:
                req[-1] = int(k + rng.integers(0, 3))
            if rng.random() < 0.2:
                req = [0]
            out = os.path.join(d, f"out{c}.nc")
            old = rng.random() < 0.2
            if old:                                       # an older file of that name
                xr.Dataset({"old": ("time", np.arange(9.0))}).to_netcdf(out)
            r = dict(n=n, req=req, outcome="ok", vars=[], kept={})
            kept = r["kept"]
            arg = req if rng.random() < 0.8 else np.array(req)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    if req == [0] and seed % 2:
                        extract_one_timeslice(fn, out)
                    else:
                        extract_one_timeslice(nc_file=fn, output_fname=out, timeslice=arg)
            except (IndexError, FileNotFoundError, ValueError) as e:
                r["outcome"] = type(e).__name__
            kept["the request"] = list(arg) == req
            if there:
                kept["the file itself"] = open(fn, "rb").read() == raw
            calls.append(r)
            if r["outcome"] != "ok" or not there:
                break
            with xr.open_dataset(out) as dst:
                dst = dst.load()
            kept["names"] = sorted(map(str, src.variables)) == sorted(map(str, dst.variables))
            kept["coordinates"] = sorted(map(str, src.coords)) == sorted(map(str, dst.coords))
            kept["attributes"] = {k: repr(v) for k, v in src.attrs.items()} == {k: repr(v) for k, v in dst.attrs.items()}
            for nme, v in src.variables.items():
                w = dst.variables.get(nme)
                if w is None:
                    continue
                kept[f"{nme}: dimensions"] = v.dims == w.dims and all(v.sizes[x] == w.sizes[x] for x in v.dims if x != "time")
                kept[f"{nme}: attributes"] = {k: repr(x) for k, x in v.attrs.items()} == {k: repr(x) for k, x in w.attrs.items()}
                kept[f"{nme}: type"] = v.dtype.kind == w.dtype.kind
                if "time" in v.dims:
                    r["vars"].append(dict(n=str(nme), steps=cut(ids, v), out=cut(ids, w) if "time" in w.dims else []))
                else:
                    kept[f"{nme}: no steps"] = rec.digest(v.values) == rec.digest(w.values)
            r["kept"] = {k: bool(v) for k, v in kept.items()}
            fn = out
    for r in calls:
        r["kept"] = {k: bool(v) for k, v in r["kept"].items()}
    return dict(calls=calls)


def generate(ctx):
    for k in range(150 if ctx.quick else 2500):
        sd = 10000 * ctx.seed + k
        ctx.case(f"extract-{sd}", f"snapshots, draw {sd}", lambda sd=sd: record(sd, ctx.src), replay={"draw": sd})

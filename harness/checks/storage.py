"""Pairs of runs on inputs of the same values stored differently, for the Storage specification (C26)."""
import json, os
import numpy as np
from vf import scen, rec
from vf.loose import loose
from checks import symmetry, difference


def prepare(work, seed, tier, log):
    from vf import tlc
    out, st, err = tlc.run("Storage_Model", "SPECIFICATION Spec\nCONSTANT MaxSteps = 2\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", workers=1)
    rs = [json.loads(json.loads(line).split("|", 1)[1])["steps"] for line in out.splitlines() if line.startswith('"REQ|')]
    if len(rs) < 100:
        raise RuntimeError("no requests from TLC: " + out[-1000:] + err[-500:])
    log("ways of storing from TLC:", len(rs))
    with open(os.path.join(work, "reqs.json"), "w") as f:
        json.dump(sorted(rs, key=lambda x: (len(x), x)), f)


def step(x, how):
    if how == "rows":
        return np.array(x, order="C")
    if how == "columns":
        return np.array(x, order="F")
    if how == "sample":
        b = np.full(tuple(2 * k for k in x.shape), 99, x.dtype)
        b[tuple(slice(None, None, 2) for _ in x.shape)] = x
        return b[tuple(slice(None, None, 2) for _ in x.shape)]
    if how == "updown":
        return np.array(x[::-1], order="C")[::-1]
    if how == "reversed":
        return np.array(x[..., ::-1], order="C")[..., ::-1]
    if how == "shifted":
        b = np.frombuffer(bytearray(x.nbytes + 1), np.uint8)[1:].view(x.dtype).reshape(x.shape)
        b[...] = x
        return b
    if how == "swapped":
        return x.astype(x.dtype.newbyteorder(), order="C")
    if how in ("single", "double", "whole"):
        return x.astype({"single": np.float32, "double": np.float64, "whole": np.int64}[how], order="C")
    if how == "frozen":
        x = x.view()
        x.flags.writeable = False
        return x
    raise KeyError(how)


def store(x, steps):
    x = np.array(x, dtype=float, order="C")
    for s in steps:
        x = step(x, s)
    return x


def flags(x):
    f = dict(aligned=x.flags.aligned, native=x.dtype.isnative, whole=x.dtype.kind == "i", writable=x.flags.writeable, single=x.dtype.itemsize == 4)
    if x.ndim > 1:
        f.update(rowmajor=x.flags.c_contiguous, columnmajor=x.flags.f_contiguous)
    return {k: bool(v) for k, v in f.items()}


DEV = ("ptref", "interpolated_theta", "baro_t0", "t0_n", "t0_s")


def rows(x):
    x = np.asarray(x, float)
    return x.reshape(-1, x.shape[-1]) if x.ndim > 1 else np.atleast_1d(x)[None, :]


def encode(a, b, floor=1024):
    A, B = {}, {}
    for n in a:
        x, y = np.asarray(a[n], float), np.asarray(b[n], float)
        if n in DEV and x.shape == y.shape:
            m = x.mean(axis=(-1, -2)[:x.ndim], keepdims=True)
            x, y = x - m, y - m
        x, y = rows(x), rows(y)
        pk = np.nan_to_num(np.abs(x), posinf=0).max(axis=1)
        sc = np.maximum(pk, max(pk.max(), 1e-300) / floor)[:, None]
        A[n], B[n] = rec.q(x, sc), rec.q(y, sc if x.shape == y.shape else 1.0)
    return A, B


def flat(o):
    r = {}
    for n, v in o.items():
        if isinstance(v, tuple):
            r.update({f"{n}[{i}]": x for i, x in enumerate(v) if x is not None})
        elif v is not None:
            r[n] = v
    return r


def case(fn, inp, steps, which):
    """fn of plain arrays and of arrays stored by the steps"""
    a = flat(fn({k: np.array(v, float) for k, v in inp.items()}))
    given = {k: store(v, steps if k in which else []) for k, v in inp.items()}
    fl = {k: flags(given[k]) for k in which}
    same = {k: bool(np.array_equal(given[k].astype(float), inp[k])) for k in inp}
    b = flat(fn(given))
    A, B = encode(a, b, 64 if "single" in steps else 1024)      # levels in single precision move PV by 1e-6
    return dict(steps=list(steps), flags=fl, same=same, kept={k: bool(np.array_equal(given[k].astype(float), inp[k])) for k in inp},
                out=sorted(A), a=A, b=B)


def whole(s, seed):
    """an input of whole numbers"""
    inp = scen.inputs(dict(s, seed=seed))
    inp.update({k: np.rint(inp[k]) for k in "uvt"})
    if not scen.full(s)["pre"]:
        inp["plev"] = np.rint(inp["plev"])
    return inp


def is_whole(x):
    return bool(np.all(np.asarray(x) == np.rint(x)))


def qg(s, seed, steps, part):
    s = dict(s, seed=seed)
    inp = whole(s, seed)
    nc = symmetry.forcing(s, inp)
    nc = np.where(nc == 0, 0, np.rint(nc / 1e-10 * 64))
    inp["ncforce"] = nc
    inp["heating"] = np.rint(64 * np.random.default_rng(seed + 5).normal(size=inp["t"].shape))
    which = {"fields": ["u", "v", "t"], "coordinates": ["xlon", "ylat", "plev"], "forcing": ["ncforce", "heating"], "u": ["u"], "v": ["v"], "t": ["t"]}[part]
    if {"single", "whole"} & set(steps):            # only what the type can hold
        which = [k for k in which if is_whole(inp[k])]

    def run(i):
        q = scen.pipeline(s, i, ncforce=i["ncforce"])
        o = scen.outputs(q)
        o["heat"] = q.compute_ncforce_from_heating_rate(i["heating"])
        w = scen.pipeline(s, i, upto="ref")
        w.compute_lwa_only()
        o["only_lwa"], o["only_u"] = w.lwa_baro, w.u_baro
        return o
    return case(run, inp, steps, which)


def options(s, seed, how):
    """whole options as integers of one kind or another"""
    s = dict(s, seed=seed)
    inp = whole(s, seed)
    kw = scen.kwargs(s)
    num = {k: v for k, v in kw.items() if isinstance(v, (int, float)) and not isinstance(v, bool) and float(v) == int(v)}
    T = {"int": int, "int64": np.int64, "int32": np.int32, "double": lambda v: np.float64(v) if isinstance(v, float) else v}[how]

    def run(i, over):
        q = scen.make(s, i, **over)
        return scen.outputs(scen.pipeline(s, i, obj=q))
    over = {k: (T(v) if k not in ("tol", "rjac") else v) for k, v in num.items()}
    a, b = flat(run(inp, {})), flat(run(inp, over))
    A, B = encode(a, b)
    return dict(steps=[], flags={}, same={k: bool(float(v) == float(num[k])) for k, v in over.items()}, kept={}, out=sorted(A), a=A, b=B)


def sphere(seed, steps):
    from falwa import wrapper as W, basis
    from falwa.barotropic_field import BarotropicField
    rng = np.random.default_rng(seed)
    n, m = 2 * int(rng.integers(4, 8)) + 1, int(rng.integers(4, 9))
    y = np.rint(np.linspace(-90, 90, n))
    cl = np.abs(np.cos(np.deg2rad(y)))
    cl[[0, -1]] = 0
    big = (1024, 4)[seed % 2]
    dmu = np.rint(big * cl) + 0.25 * (seed % 3 != 1)
    area = np.rint(4 * big * cl)[:, None] * np.ones((n, m))
    R = float(np.sqrt(area.sum() / (4 * np.pi)))
    vort = np.rint((30000 if "single" in steps else (30000, 300, 12)[seed % 3]) * (np.sin(np.deg2rad(y))[:, None] + 0.3 * rng.normal(size=(n, m))))
    inp = dict(xlon=np.arange(m) * 8.0, ylat=y, vort=vort, area=area, dmu=dmu, vgrad=np.rint(big / 2 * rng.normal(size=(n, m))),
               ncforce=np.rint(big / 2 * rng.normal(size=(n, m))), qref=np.sort(np.rint(vort.mean(axis=1))), theta=vort - vort.min() + 1000)
    npart = int(rng.integers(n, 3 * n))
    part = bool(seed // 2 % 2)

    def run(i):
        x, y, q, ar, d = i["xlon"], i["ylat"], i["vort"], i["area"], i["dmu"]
        o = {}
        b = BarotropicField(x, y, q, area=ar, dphi=i["qref"], planet_radius=R, n_partitions=npart, return_partitioned_lwa=part)
        o["class"] = (b.equivalent_latitudes, b.lwa)
        # areas computed in single precision move the steps of the area as a function of vorticity by rounding
        b = BarotropicField(x, y if y.dtype.itemsize > 4 else inp["ylat"], q, planet_radius=R)
        o["class, own geometry"] = (b.equivalent_latitudes, b.lwa)
        o["eqlat"] = W.barotropic_eqlat_lwa(y, q, ar, d, npart, planet_radius=R, return_partitioned_lwa=part)
        o["input qref"] = W.barotropic_input_qref_to_compute_lwa(y, i["qref"], q, ar, d, planet_radius=R)
        o["qgpv input qref"] = W.qgpv_input_qref_to_compute_lwa(y, i["qref"], q, ar, d, planet_radius=R)
        o["hemispheric"] = W.eqvlat_hemispheric(y, q, ar, n_points=npart, planet_radius=R)
        o["bracket"] = W.eqvlat_bracket_hemispheric(y, q, ar, n_points=npart, planet_radius=R, vgrad=i["vgrad"])
        o["qgpv"] = W.qgpv_eqlat_lwa(y, q, ar, d, n_points=npart, planet_radius=R)
        o["forced"] = W.qgpv_eqlat_lwa_ncforce(y, q, i["ncforce"], ar, d, n_points=npart, planet_radius=R)
        o["options"] = tuple(W.qgpv_eqlat_lwa_options(y, q, ar, d, n_points=npart, vgrad=i["vgrad"], ncforce=i["ncforce"], planet_radius=R).values())
        o["theta"] = W.theta_lwa(y, i["theta"], ar, d, n_points=npart, planet_radius=R)
        z = basis.eqvlat_fawa(y, q, ar, npart, planet_radius=R)
        o["basis eqvlat"] = (z[0], z[1][2:-1])
        o["basis vgrad"] = basis.eqvlat_vgrad(y, q, ar, npart, planet_radius=R, vgrad=i["vgrad"])
        o["basis lwa"] = basis.lwa(m, n, q, i["qref"], d, ncforce=i["ncforce"])
        return o
    return case(run, inp, steps, [k for k in inp if is_whole(inp[k])] if "whole" in steps else list(inp))


def utilities(seed, steps, src):
    from falwa import utilities as U
    S = loose('stat_utils', src)
    rng = np.random.default_rng(seed)
    K, n, m = int(rng.integers(3, 6)), 2 * int(rng.integers(2, 5)) + 1, int(rng.integers(3, 7))
    y = np.rint(np.linspace(-90, 90, n))
    c = np.rint(16 * np.abs(np.cos(np.deg2rad(y))))
    dl, dp, R = 0.5, 0.25, 3.0
    inp = dict(height=np.arange(K) * 1000.0, ylat=y, clat=c, area=rng.integers(1, 50, size=(n, m)), theta=300 + rng.integers(-20, 20, size=(K, n, m)),
               theta_mean=300 + rng.integers(-20, 20, size=(K, n)), f=rng.integers(-50, 50, size=(n, m)), g=rng.integers(-50, 50, size=(n, m)),
               avort=rng.integers(-50, 50, size=(K, n, m)), t0_n=300 + 9 * np.arange(K), t0_s=290 + 8 * np.arange(K), stat_n=9.0 + np.arange(K), stat_s=7.0 + np.arange(K),
               decay=64.0 - np.arange(K), mult=rng.integers(-9, 9, size=(K, n)), a=rng.integers(-9, 9, size=(5, n, m)), b=rng.integers(-9, 9, size=(5, n, m)))
    inp = {k: np.array(v, float) for k, v in inp.items()}

    def run(i):
        o = dict(stab=U.static_stability(i["height"], i["area"], i["theta"]),
                 stab_mean=U.static_stability(i["height"], i["area"].sum(axis=1), i["theta_mean"]),
                 qgpv=U.compute_qgpv_givenvort(3.0, n, m, K, i["height"], i["ylat"], i["avort"], i["theta"], i["t0_s"], i["t0_n"],
                                               i["stat_s"], i["stat_n"], nlat_s=n // 2 + 1, scale_height=7000.0),
                 zc=U.zonal_convergence(i["f"], i["clat"], dl, planet_radius=R), md=U.meridional_divergence(i["f"], i["clat"], dp, planet_radius=R),
                 curl=U.curl_2d(i["f"], i["g"], i["clat"], dl, dp, planet_radius=R),
                 zder=U.z_derivative_of_prod(i["stat_n"], i["stat_s"], K, n // 2 + 1, 1000.0, i["decay"], i["avort"], i["mult"]),
                 cov=S.calculate_covariance(i["a"], i["b"]))
        return o
    return case(run, inp, steps, list(inp))


def boxed(s, seed, steps, box):
    """the same dataset as labelled arrays, in chunks, and in a file"""
    import xarray as xr
    from falwa.xarrayinterface import QGDataset
    s = dict(s, seed=seed)
    inp = whole(s, seed)
    kw = scen.kwargs(s)
    which = [k for k in inp if is_whole(inp[k])] if {"single", "whole"} & set(steps) else list(inp)
    given = {k: store(v, steps if k in which else []) for k, v in inp.items()}
    dims = ("plev", "ylat", "xlon")

    def dataset(i):
        co = {d: i[d] for d in dims}
        sl = np.stack([i[k] for k in "uvt"])
        return xr.Dataset({k: (dims, i[k]) for k in "uvt"}, coords=co), sl.shape

    def run(ds):
        q = QGDataset(ds, qgfield=scen.cls_of(s), qgfield_kwargs=kw)
        o = {}
        for r in (q.interpolate_fields(), q.compute_reference_states(), q.compute_lwa_and_barotropic_fluxes(),
                  q.compute_layerwise_lwa_fluxes()):
            if r is not None:
                o.update({n: r[n].values for n in r.data_vars})
        o["qgpv"] = q.interpolate_fields()["qgpv"].values if "qgpv" not in o else o["qgpv"]
        return o
    a = run(dataset(inp)[0])
    ds = dataset(given)[0]
    path = None
    if box == "file":
        path = os.path.abspath(f"storage-{os.getpid()}-{seed}.nc")
        ds.to_netcdf(path, format=("NETCDF4", "NETCDF3_CLASSIC")[seed % 2] if "whole" not in steps else "NETCDF4")
        ds = xr.open_dataset(path)
    elif box == "chunks":
        ds = ds.chunk({"ylat": 3, "xlon": 2})
    try:
        same = {k: bool(np.array_equal(np.asarray(ds[k].values, float), inp[k])) for k in inp}
        b = run(ds)
        kept = {k: bool(np.array_equal(np.asarray(ds[k].values, float), inp[k])) for k in inp}
    finally:
        if path:
            ds.close()
            os.remove(path)
    A, B = encode(a, b, 64 if "single" in steps else 1024)
    fl = {k: flags(given[k]) for k in which}
    return dict(steps=list(steps), flags=fl, same=same, kept=kept, out=sorted(A), a=A, b=B)


# grids whose coordinates are whole numbers
GRIDS = [dict(cls="NH18", nlat=13, nlon=8), dict(cls="NHN22", nlat=19, nlon=6, eqb=2), dict(cls="NH18", nlat=16, nlon=9, kmax=7, kind="rough"),
         dict(cls="NHN22", nlat=16, nlon=10, kmax=8, eqb=3), dict(cls="NH18", nh=True, nlat=13, nlon=8), dict(cls="NHN22", nh=True, nlat=16, nlon=6, eqb=2),
         dict(cls="NH18", pre=True, nlat=13, nlon=9, kmax=8), dict(cls="NHN22", pre=True, nlat=13, nlon=8, eqb=2, kmax=8, kind="rough")]


def generate(ctx):
    with open("reqs.json") as f:
        reqs = [r for r in json.load(f) if r]
    rng = np.random.default_rng(ctx.seed)
    single = [r for r in reqs if len(r) == 1]
    double = [r for r in reqs if len(r) > 1]
    parts = ["fields", "coordinates", "forcing", "u", "v", "t"]
    for k, r in enumerate(single):
        for j in range(2 if ctx.quick else len(GRIDS)):
            s = GRIDS[(k + 3 * j + ctx.seed) % len(GRIDS)]
            for p in parts[:3]:
                ctx.case(f"qg-{'-'.join(r)}-{p}-{j}", f"{p} stored by {r} {scen.name(s)}",
                         lambda s=s, r=r, p=p, k=k: qg(s, 100 * ctx.seed + k, r, p), replay={"scenario": s, "steps": r, "part": p, "draw": 100 * ctx.seed + k})
    pick = double if not ctx.quick else [double[i] for i in np.sort(rng.choice(len(double), 40, replace=False))]
    for k, r in enumerate(pick):
        for j in range(1 if ctx.quick else 4):
            s, p = GRIDS[int(rng.integers(len(GRIDS)))], parts[int(rng.integers(len(parts)))]
            ctx.case(f"qg2-{'-'.join(r)}-{p}-{j}", f"{p} stored by {r} {scen.name(s)}",
                     lambda s=s, r=r, p=p, k=k: qg(s, 100 * ctx.seed + k, r, p), replay={"scenario": s, "steps": r, "part": p, "draw": 100 * ctx.seed + k})
    for k, r in enumerate(reqs):
        for j in range(1 if ctx.quick else 12):
            sd = 10000 * ctx.seed + 17 * k + j
            ctx.case(f"sphere-{k}-{j}", f"barotropic analysis, input stored by {r}, draw {sd}", lambda sd=sd, r=r: sphere(sd, r), replay={"draw": sd, "steps": r})
            ctx.case(f"util-{k}-{j}", f"utilities, input stored by {r}, draw {sd}", lambda sd=sd, r=r: utilities(sd, r, ctx.src), replay={"draw": sd, "steps": r})
    for i, s in enumerate(GRIDS):
        for j, h in enumerate(["int", "int64", "int32", "double"]):
            if not ctx.quick or (i + j) % 2 == 0:
                ctx.case(f"options-{i}-{h}", f"options as {h} {scen.name(s)}", lambda s=s, h=h, i=i: options(s, 100 * ctx.seed + i, h), replay={"scenario": s, "options": h})
    pick = single + (double if not ctx.quick else [double[i] for i in np.sort(rng.choice(len(double), 6, replace=False))])
    for k, r in enumerate(pick):
        for b in ("labels", "chunks", "file"):
            s = GRIDS[(k + {"labels": 0, "chunks": 3, "file": 5}[b]) % len(GRIDS)]
            sd = 1000 * ctx.seed + k
            ctx.case(f"{b}-{'-'.join(r)}", f"dataset in {b}, stored by {r} {scen.name(s)}", lambda s=s, sd=sd, r=r, b=b: boxed(s, sd, r, b),
                     replay={"scenario": s, "draw": sd, "steps": r, "box": b})

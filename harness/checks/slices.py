"""QGDatasets over extra dimensions recorded next to one QG field per slice, for the Slices specification (C16)."""
import itertools
import numpy as np
from vf import rec, scen

STAGES = dict(interp="interpolate_fields", ref="compute_reference_states", wave="compute_lwa_only",
              flux="compute_lwa_and_barotropic_fluxes", layer="compute_layerwise_lwa_fluxes")
ATTRS = ["kmax", "dz", "maxit", "tol", "npart", "rjac", "scale_height", "cp", "dry_gas_constant", "omega", "planet_radius", "prefactor"]
VARS = dict(interp=scen.INTERP, ref=scen.REF, wave=["lwa_baro", "u_baro", "lwa"], flux=scen.BARO + ["lwa"], layer=["lwa"] + scen.LAYER)
LABELS = dict(time=np.array(["2005-01-03", "2005-01-01", "2005-01-09", "2004-12-31"], dtype="datetime64[ns]"),
              member=np.array([12, 3, 7]), run=np.array(["ctl", "a2", "b"]), lead=np.array([0.5, 0.25, 24.0]))


def one(s, inp, nc, heat, ids):
    """What a QG field of one slice gives"""
    q = scen.make(s, inp)
    w = {}
    q.interpolate_fields(return_named_tuple=False)
    w["interp"] = {v: ids(getattr(q, v)) for v in scen.INTERP}
    st = q.static_stability
    if isinstance(st, tuple):
        w["interp"]["static_stability_s"], w["interp"]["static_stability_n"] = ids(st[0]), ids(st[1])
    else:
        w["interp"]["static_stability"] = ids(st)
    q.compute_reference_states(return_named_tuple=False)
    w["ref"] = {v: ids(getattr(q, v)) for v in scen.REF}
    q.compute_lwa_only()
    w["wave"] = {v: ids(getattr(q, v)) for v in VARS["wave"]}
    q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=nc)
    w["flux"] = {v: ids(getattr(q, v)) for v in VARS["flux"]}
    q.compute_layerwise_lwa_fluxes(ncforce=nc)
    w["layer"] = {v: ids(getattr(q, v)) for v in VARS["layer"]}
    w["force"] = {"ncforce": ids(q.compute_ncforce_from_heating_rate(heating_rate=heat))}
    return w, q


def record(s, extra, flips, seed):
    """extra: (name, size) of the extra dimensions in the order of the input"""
    import xarray as xr
    import falwa
    from falwa.xarrayinterface import QGDataset
    rng = np.random.default_rng(seed)
    f, ids = scen.full(s), rec.Intern()
    dims, size = [n for n, _ in extra], [k for _, k in extra]
    lab = {n: LABELS[n][rng.permutation(len(LABELS[n]))[:k]] for n, k in extra}
    order = [list(t) for t in itertools.product(*(range(k) for k in size))]
    inps = [scen.inputs({**s, "seed": s["seed"] + i}) for i in range(len(order))]
    g0 = inps[0]
    for x in inps:                           # one grid for all
        x.update(xlon=g0["xlon"], ylat=g0["ylat"], plev=g0["plev"])
    K = f["kmax"]
    ncs = [rng.normal(size=(K, f["nlat"], f["nlon"])) * 1e-10 for _ in order]
    heats = [rng.normal(size=x["t"].shape) * 1e-4 for x in inps]
    ones = [one(s, x, n, h, ids) for x, n, h in zip(inps, ncs, heats)]
    want = {st: {v: [w[st][v] for w, _ in ones] for v in ones[0][0][st]} for st in ones[0][0]}
    q1 = ones[0][1]
    core = ["plev", "ylat", "xlon"]
    stack = lambda a: np.array(a).reshape(*size, *np.asarray(a[0]).shape)
    fl = tuple(a for a, b in zip((-3, -2), flips) if b)
    turn = lambda a, ax=fl: np.flip(a, ax) if ax else a
    co = {**lab, "plev": turn(g0["plev"], (0,) if flips[0] else ()), "ylat": turn(g0["ylat"], (0,) if flips[1] else ()), "xlon": g0["xlon"]}
    ds = xr.Dataset({k: ([*dims, *core], turn(stack([x[k] for x in inps]))) for k in "uvt"}, co)
    heat = xr.DataArray(turn(stack(heats)), dims=[*dims, *core], coords=co)
    nc = xr.DataArray(stack(ncs), dims=[*dims, "height", "ylat", "xlon"],
                      coords={**lab, "height": q1.height, "ylat": g0["ylat"], "xlon": g0["xlon"]})
    # forcing in its own order of labels and of extra dimensions
    for n in dims:
        p = rng.permutation(len(lab[n]))
        nc, heat = nc.isel({n: p}), heat.isel({n: p[::-1]})
    if len(dims) > 1:
        nc, heat = nc.transpose(*dims[::-1], ...), heat.transpose(*(dims[1:] + dims[:1]), ...)
    make = lambda: QGDataset(ds, qgfield=scen.cls_of(s), qgfield_kwargs=scen.kwargs(s))
    qd = make()
    if dims == [] and flips == (False, False):
        qd = QGDataset(ds["u"], ds["v"], ds["t"], qgfield=scen.cls_of(s), qgfield_kwargs=scen.kwargs(s))
    where = [{n: lab[n][i] for n, i in zip(dims, o)} for o in order]
    cells = lambda da: [ids(da.sel(w).values) for w in where]
    stages = []

    def keep(stage, out, arrays):
        v = {}
        for n, da in arrays.items():
            v[str(n)] = dict(dims=list(da.dims), label={str(c): ids(da[c].values.astype(np.int64) if da[c].dtype.kind == "M" else (da[c].values.astype("U8") if da[c].dtype.kind in "UO" else da[c].values)) for c in da.coords},
                             cell=cells(da))
        acc = {}
        for n in v:
            if stage not in ("force",) and not n.startswith("static_stability"):
                acc[n] = cells(getattr(qd, n))
        if stage == "interp":
            st = qd.static_stability
            for da in (st if isinstance(st, tuple) else (st,)):
                acc[da.name] = cells(da)
        stages.append(dict(stage=stage, vars=v, acc=acc, attrs={k: rec.digest(x) if not isinstance(x, str) else x for k, x in (out.attrs if stage != "force" else {}).items()}))
    for st in ("interp", "ref", "wave", "flux", "layer"):
        kw = {"ncforce": nc} if st in ("flux", "layer") else {}
        out = getattr(qd, STAGES[st])(**kw)
        keep(st, out, dict(out.data_vars))
    fo = qd.compute_ncforce_from_heating_rate(heat)
    keep("force", fo, {fo.name: fo})
    qs = make()
    quiet = {}
    proj = lambda q: rec.digest(getattr(getattr(q, "layerwise_flux_terms_storage", None), "ncforce", None))
    for i, (w, q) in enumerate(ones):
        quiet[f"projected forcing of slice {i}"] = proj(q) == proj(qd.fields[i])
    for st in ("interp", "ref", "flux"):
        kw = {"ncforce": nc} if st == "flux" else {}
        quiet[st] = getattr(qs, STAGES[st])(return_dataset=False, **kw) is None
        for v in VARS[st]:
            quiet[v] = cells(getattr(qs, v)) == want[st][v]
    attrs = {a: rec.digest(getattr(q1, a)) for a in ATTRS}
    attrs.update(protocol=type(q1).__name__, package=f"hn2016_falwa {falwa.__version__}")
    lid = lambda a: ids(a.astype(np.int64) if a.dtype.kind == "M" else (a.astype("U8") if a.dtype.kind in "UO" else a))
    return dict(protocol=f["cls"], nh=bool(f["nh"]), dims=dims, size=size, labels=[lid(lab[n]) for n in dims], stages=stages, want=want,
                axis=dict(height=ids(q1.height), ylat=ids(q1.ylat), yref=ids(q1.ylat_ref_states), xlon=ids(q1.xlon)), attrs=attrs,
                order=[[i + 1 for i in o] for o in order], quiet={k: bool(v) for k, v in quiet.items()})


SHAPES = [[], [("time", 3)], [("member", 2), ("time", 2)], [("time", 2), ("member", 3)], [("lead", 1), ("run", 2)], [("run", 3)],
          [("time", 2), ("member", 1), ("lead", 2)], [("member", 2), ("run", 2), ("time", 1)]]


def generate(ctx):
    base = scen.BASE if ctx.quick else scen.BASE + scen.EXTRA
    for r in range(1 if ctx.quick else 6):
        for i, s in enumerate(base):
            sd = 3000 * ctx.seed + 200 * r + 10 * i
            s = dict(s, seed=sd)
            ex = SHAPES[(i + 3 * r) % len(SHAPES)]
            fl = ((i + r) % 2 == 1, ((i + r) // 2) % 2 == 1)
            nm = ",".join(f"{n}:{k}" for n, k in ex)
            ctx.case(f"slices-{r}-{i}", f"dataset over ({nm}) flips {fl} {scen.name(s)}", lambda s=s, ex=ex, fl=fl, sd=sd: record(s, ex, fl, sd),
                     replay={"scenario": s, "extra": ex, "flips": list(fl)})

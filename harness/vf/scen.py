"""Scenarios: configurations of a QG field and the matching inputs."""
import warnings
import numpy as np
from . import fields

DEF = dict(cls="NH18", nlat=13, nlon=8, kmax=8, nlev=10, dz=2000.0, h=7000.0, rr=287.0, cp=1004.0, om=7.29e-5,
           a=6.378e6, nh=False, eqb=2, npart=None, pre=False, kind="generic", seed=1, amp=1.0, jitter=0.2,
           maxit=100000, tol=1e-5, rjac=0.95, raise_=True, top=1.02)

# a spread of configurations used by most checks
BASE = [
    dict(cls="NH18"),
    dict(cls="NHN22", nlat=17, eqb=2),
    dict(cls="NH18", nlat=16, nlon=9, kmax=7, kind="rough"),
    dict(cls="NHN22", nlat=18, eqb=3, kmax=9, kind="rough"),
    dict(cls="NH18", nh=True, nlat=15, kmax=9, dz=1500.0),
    dict(cls="NHN22", nh=True, nlat=19, eqb=3, nlon=7),
    dict(cls="NH18", nh=True, nlat=14, nlon=6),
    dict(cls="NHN22", nh=True, nlat=16, eqb=1, kmax=7),
    dict(cls="NH18", om=1.1e-4, a=4.1e6, h=8200.0, rr=190.0, cp=830.0, nlat=11, npart=23),
    dict(cls="NHN22", om=5.1e-5, a=7.7e6, h=6100.0, rr=310.0, cp=1200.0, nlat=15, eqb=1, dz=1700.0),
    dict(cls="NH18", pre=True, nlat=13, kmax=9, nlev=9, npart=40),
    dict(cls="NHN22", pre=True, nlat=17, eqb=2, kmax=8, nlev=8, kind="rough"),
    dict(cls="NHN22", nlat=15, eqb=0, kmax=8),
    dict(cls="NH18", nlat=17, nlon=5, kind="rough", amp=1.6, npart=9),
]
# even latitude counts that must come out right when the constants are not Earth's
EXTRA = [
    dict(cls="NH18", nlat=12, nlon=8, om=9e-5, a=5e6, h=7600.0, dz=1800.0, nh=True, kind="rough"),
    dict(cls="NHN22", nlat=20, nlon=6, om=9e-5, a=5e6, h=7600.0, dz=1800.0, eqb=4, kind="rough"),
    dict(cls="NH18", nlat=19, nlon=12, kmax=6, nlev=8, amp=0.6),
    dict(cls="NHN22", nlat=21, nlon=10, kmax=10, eqb=5, amp=0.7),
    dict(cls="NHN22", nlat=15, nlon=6, kmax=12, dz=1000.2, eqb=1),      # the twelfth multiple is rounded up
]


def drawn(seed, n):
    """n configurations with every axis drawn: protocol, mode, grid, levels, constants, partitions, boundary, state"""
    rng = np.random.default_rng([seed, 4711])
    r = lambda a, b: round(float(rng.uniform(a, b)), 3)
    res = []
    for _ in range(n):
        kmax, h, rr = int(rng.integers(5, 13)), round(r(5.8, 8.4) * 1000), round(r(200, 310))
        s = dict(cls=("NH18", "NHN22")[int(rng.integers(2))], nlat=int(rng.integers(9, 25)), nlon=int(rng.integers(3, 13)), kmax=kmax,
                 h=h, dz=round(h * r(1.2, 2.2) / (kmax - 1)), rr=rr, cp=round(rr / r(0.24, 0.31)), om=r(4.5, 11) * 1e-5,
                 a=round(r(4, 8), 2) * 1e6, nh=bool(rng.random() < 0.4), pre=bool(rng.random() < 0.25),
                 nlev=kmax + int(rng.integers(1, 7)), kind=("generic", "rough")[int(rng.integers(2))], amp=r(0.5, 1.3), tol=4e-5)     # single precision does not always reach 1e-5
        if s["cls"] == "NHN22":
            s["eqb"] = int(rng.integers(0, min(6, s["nlat"] // 2 - 2)))
        elif rng.random() < 0.6:
            s["npart"] = int(rng.integers(6, 90))
        if rng.random() < 0.4:                       # the Earth
            for k in ("h", "rr", "cp", "om", "a"):
                s.pop(k)
            s["dz"] = round(DEF["h"] * r(1.2, 2.2) / (kmax - 1))
        res.append(s)
    return res


# as many rows, columns or levels as in practice, one at a time
LONG = [
    dict(cls="NH18", nlat=121, nlon=4, kmax=5, nlev=8, dz=2500.0),
    dict(cls="NHN22", nlat=91, nlon=3, kmax=6, nlev=8, dz=2200.0, eqb=6),
    dict(cls="NH18", nlat=9, nlon=240, kmax=5, nlev=8, dz=2500.0, nh=True),
    dict(cls="NHN22", nlat=13, nlon=180, kmax=5, nlev=8, dz=2500.0, eqb=1),
    dict(cls="NH18", nlat=11, nlon=4, kmax=49, nlev=30, dz=300.0, tol=1e-4),
    dict(cls="NHN22", nlat=12, nlon=3, kmax=61, nlev=25, dz=250.0, eqb=1, nh=True),
]


def spread(ctx):
    return BASE + EXTRA + LONG + drawn(ctx.seed, 4 if ctx.quick else 16)


def full(s):
    d = dict(DEF)
    d.update(s)
    if d["pre"]:
        d["nlev"] = d["kmax"]
    return d


def name(s):
    return " ".join(f"{k.rstrip('_')}={v}" for k, v in sorted(s.items(), key=lambda kv: (kv[0] != "cls", kv[0])))


def inputs(s):
    s = full(s)
    rng = np.random.default_rng(s["seed"] + 7919)
    ztop = (s["kmax"] - 1) * s["dz"] * (1.0 if s["pre"] else s["top"])
    p, z = fields.plev_grid(s["nlev"], ztop, rng, 0.0 if s["pre"] else s["jitter"], s["h"])
    u, v, t = fields.state(s["seed"], s["nlat"], s["nlon"], z, s["kind"],
                           s["amp"])
    return dict(xlon=fields.lon_grid(s["nlon"]), ylat=fields.lat_grid(s["nlat"]), plev=p, u=u, v=v, t=t)


def cls_of(s):
    from falwa import oopinterface as O
    return {"NH18": O.QGFieldNH18, "NHN22": O.QGFieldNHN22, "QGField": O.QGField}[full(s)["cls"]]


def kwargs(s):
    s = full(s)
    kw = dict(kmax=s["kmax"], dz=s["dz"], maxit=s["maxit"], npart=s["npart"], tol=s["tol"], rjac=s["rjac"],
              scale_height=s["h"], cp=s["cp"], dry_gas_constant=s["rr"], omega=s["om"], planet_radius=s["a"],
              northern_hemisphere_results_only=s["nh"], data_on_evenly_spaced_pseudoheight_grid=s["pre"])
    if s["cls"] == "NHN22":
        kw["eq_boundary_index"] = s["eqb"]
    else:
        kw["raise_error_for_nonconvergence"] = s["raise_"]
    if s["pre"]:
        kw.pop("kmax"), kw.pop("dz")
    return kw


def make(s, inp=None, **over):
    inp = inp or inputs(s)
    kw = kwargs(s)
    kw.update(over)
    return cls_of(s)(inp["xlon"], inp["ylat"], inp["plev"], inp["u"], inp["v"], inp["t"], **kw)


def pipeline(s, inp=None, upto="all", ncforce=None, obj=None):
    q = obj or make(s, inp)
    q.interpolate_fields(return_named_tuple=False)
    if upto == "interp":
        return q
    q.compute_reference_states(return_named_tuple=False)
    if upto == "ref":
        return q
    kw = {} if ncforce is None else {"ncforce": ncforce}
    if upto in ("all", "baro"):
        q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, **kw)
    if upto in ("all", "layer"):
        q.compute_layerwise_lwa_fluxes(**kw)
    return q


# public outputs: name -> (stage, shape kind)
INTERP = ["qgpv", "interpolated_u", "interpolated_v", "interpolated_theta"]
REF = ["qref", "uref", "ptref"]
BARO = ["adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux",
        "divergence_eddy_momentum_flux", "meridional_heat_flux", "flux_vector_lambda_baro",
        "flux_vector_phi_baro", "lwa_baro", "u_baro", "ncforce_baro"]
LAYER = ["ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term"]
ALL = INTERP + ["static_stability"] + REF + BARO + ["lwa"] + LAYER


def outputs(q, names=None):
    import numpy as np
    res = {}
    for n in names or ALL:
        v = getattr(q, n)
        res[n] = tuple(np.array(x, dtype=float) for x in v) if isinstance(v, tuple) else np.array(v, dtype=float)
    return res

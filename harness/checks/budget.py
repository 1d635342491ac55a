"""Runs of the whole analysis recorded for the Budget specification (C06, C08, C09, C24)."""
import numpy as np
from vf import scen, rec, cubic
from checks import symmetry

ONE = rec.ONE


def odd(s):
    """The budget is stated on the analysis grid; even grids are its linear interpolation (C10)."""
    s = dict(s)
    if scen.full(s)["nlat"] % 2 == 0:
        s["nlat"] += 1
    return s


def scenarios(ctx, cap=None):
    base = [odd(s) for s in scen.spread(ctx)]
    if cap:
        base = base[:cap]
    for r in range(1 if ctx.quick else 10):
        for i, s in enumerate(base):
            s = dict(s, seed=2000 * ctx.seed + 100 * r + i)
            if r:
                s["kind"] = ("rough", "generic")[(r + i) % 2]
            yield f"{r}-{i}", s


def solve(s, inp=None, forcing=False):
    """(object after reference states, inputs, profiles (south, north, d/dz south, d/dz north), forcing)"""
    inp, ps, pn = cubic.background(s, inp)
    q = scen.pipeline(s, inp, upto="ref")
    return q, inp, cubic.profiles(s, ps, pn), (symmetry.forcing(s, inp, equator=True) if forcing else None)


class Hemi:
    """Slices arrays of the global or northern grid into one hemisphere, rows from the equator to the pole."""
    def __init__(self, s, south):
        f = scen.full(s)
        self.f, self.south, self.n = f, south, (f["nlat"] + 1) // 2

    def glob(self, a, axis):
        a = np.asarray(a, float)
        a = np.take(a, range(self.f["nlat"] // 2, -1, -1) if self.south else range(self.f["nlat"] // 2, self.f["nlat"]), axis)
        return a

    def out(self, a, axis):
        """an output that covers only the north in northern-only mode"""
        return np.asarray(a, float) if self.f["nh"] else self.glob(a, axis)

    def lo(self):
        jb = self.f["eqb"] if self.f["cls"] == "NHN22" else 0
        if jb == 0:                         # the equator row holds the southern solution if there is one
            return 1 if (self.south or self.f["nh"]) else 2
        return jb + 1


def hemis(s):
    return [Hemi(s, False)] + ([] if scen.full(s)["nh"] else [Hemi(s, True)])


def base(hm, q, prof):
    """What the formulas read, and the scales: (record, scales)"""
    f = hm.f
    tg, st = (prof[0], prof[2]) if hm.south else (prof[1], prof[3])
    dz, H, kap = f["dz"], f["h"], f["rr"] / f["cp"]
    z = cubic.heights(f)
    pv, u, v, th = (hm.glob(getattr(q, k), 1) for k in ("qgpv", "interpolated_u", "interpolated_v", "interpolated_theta"))
    Q, U, T = (hm.out(getattr(q, k), 1) for k in ("qref", "uref", "ptref"))
    jb = f["eqb"] if f["cls"] == "NHN22" else 0
    sq = 3.0 * np.maximum(np.abs(pv).max(axis=(1, 2)), 1e-3 * np.abs(pv).max())
    tref = th.mean(axis=(1, 2))
    td, Td = th - tref[:, None, None], T - tref[:, None]
    Td[:, :jb] = 0.0
    dt = np.zeros(f["kmax"])
    dt[1:-1] = tg[2:] - tg[:-2]
    d1 = tg[1] - tg[0]
    st_ = 3.0 * rec.amax(td, Td)
    ck = f["rr"] / f["h"] * 2 * dz * np.exp(-kap * z[1:-1] / H) / dt[1:-1]
    su = 3.0 * max(rec.amax(u, v, U), np.sqrt(np.abs(ck).max()) * st_ / 3)
    sd = 2.0 * max(dt.max(), d1)
    ph = np.deg2rad(np.linspace(0, 90, hm.n)) * (-1 if hm.south else 1)
    r = dict(south=hm.south, lo=hm.lo(), jb=jb, n=hm.n, m=f["nlon"], levels=f["kmax"],
             q=rec.qf(pv, sq[:, None, None]), Q=rec.qf(Q, sq[:, None]), u=rec.qf(u, su), v=rec.qf(v, su), U=rec.qf(U, su),
             t=rec.qf(td, st_), T=rec.qf(Td, st_), c=rec.qf(np.cos(ph), 1 / 0.99999), s=rec.qf(np.sin(ph), 1.0),
             w=rec.q(np.exp(-z / H), 1.0), ek=rec.q(np.exp(-kap * z / H), 1.0), dt=rec.q(dt, sd), d1=int(rec.q(d1, sd)),
             up=rec.q(np.exp(dz / H), 1.0), dn=rec.q(np.exp(-dz / H), 1.0),
             st=rec.q(st, 2 * st.max()), cst=rec.q(f["rr"] / H * 2 * dz * st_ ** 2 / (su ** 2 * sd), 1.0))
    r["c"] = np.clip(np.rint(np.cos(ph) * ONE), 0, ONE).astype(int).tolist()
    r["s"] = np.rint(np.sin(ph) * ONE).astype(int).tolist()
    ady = f["a"] * np.pi / (f["nlat"] - 1)
    # pole row of the cosine is not exactly zero in the code either
    sc = dict(q=sq, u=su, t=st_, len=ady * hm.n, st=st.min(), dt=min(d1, dt[1]), om2=2 * f["om"], dz=dz, ady=ady)
    return r, sc


def storage(q, name, s):
    """A layerwise term kept on the analysis grid, (kmax, rows, nlon)."""
    st = getattr(q, "layerwise_flux_terms_storage", None)
    a = getattr(st, name, None)
    return None if a is None else np.swapaxes(np.asarray(a, float), 0, 2)


# ---- C06 -----------------------------------------------------------------------------------
def waves(s):
    q, inp, prof, _ = solve(s)
    routes = []
    q.compute_lwa_only()
    routes.append(("LWA-only", np.array(q.lwa), np.array(q.lwa_baro), None))
    q2 = scen.pipeline(s, inp, upto="ref")
    q2.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
    routes.append(("barotropic flux", np.array(q2.lwa), np.array(q2.lwa_baro), None))
    q3 = scen.pipeline(s, inp, upto="ref")
    q3.compute_layerwise_lwa_fluxes()
    routes.append(("layerwise", np.array(q3.lwa), None, [storage(q3, "astar1", s), storage(q3, "astar2", s)]))
    hs = []
    for hm in hemis(s):
        r, sc = base(hm, q, prof)
        unit = (sc["q"] * sc["len"])[:, None, None]
        r = {k: r[k] for k in ("south", "lo", "jb", "n", "m", "levels", "q", "Q", "c", "w")}
        r["routes"] = []
        sA = 1.2 * rec.amax(*[hm.out(x[1], 1) for x in routes])
        for name, lwa, baro, parts in routes:
            L = hm.out(lwa, 1)
            x = dict(n=name, lwa=rec.q(L, unit), neg=bool((L < -1e-6 * L.max()).any() or (baro is not None and (baro < -1e-6 * baro.max()).any())))
            if baro is not None:
                x["lw"] = rec.qf(L, sA)
                x["baro"] = rec.qf(hm.out(baro, 0), sA)
            if parts is not None and all(p is not None for p in parts):
                x["cyc"], x["anti"] = (rec.q(hm.out(p, 1), unit) for p in parts)
            r["routes"].append(x)
        hs.append(r)
    return {"h": hs}


# ---- C08 -----------------------------------------------------------------------------------
def layers(s):
    q, inp, prof, _ = solve(s)
    q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
    heat = np.array(q.meridional_heat_flux)
    q.compute_layerwise_lwa_fluxes()
    hs = []
    for hm in hemis(s):
        r, sc = base(hm, q, prof)
        wave = (sc["q"] * sc["len"])[:, None, None]
        o = {k: hm.out(getattr(q, k), 1) for k in ("ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term")}
        r["o"] = dict(ua1=rec.q(o["ua1"], wave * sc["u"]), ua2=rec.q(o["ua2"], wave * sc["u"]),
                      ep1=rec.q(o["ep1"], sc["u"] ** 2), ep2=rec.q(o["ep2"], sc["u"] ** 2), ep3=rec.q(o["ep3"], sc["u"] ** 2),
                      str=rec.q(o["stretch_term"], sc["om2"] * sc["u"] * sc["t"] / (sc["st"] * sc["dz"])),
                      heat=rec.q(hm.out(heat, 0), sc["om2"] * sc["u"] * sc["t"] / sc["dt"]))
        hs.append(r)
    return {"h": hs}


# ---- C09 -----------------------------------------------------------------------------------
def columns(s):
    q, inp, prof, nc = solve(s, forcing=True)
    q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=nc)
    bar = {k: np.array(getattr(q, k)) for k in scen.BARO}
    q.compute_layerwise_lwa_fluxes(ncforce=nc)
    f = scen.full(s)
    hs = []
    for hm in hemis(s):
        b, sc = base(hm, q, prof)
        r = {k: b[k] for k in ("south", "lo", "jb", "n", "m", "levels", "u", "v", "U", "c", "w")}
        av = []
        pairs = [("adv_flux_f1", q.ua1, bar["adv_flux_f1"]), ("adv_flux_f2", q.ua2, bar["adv_flux_f2"]),
                 ("adv_flux_f3", q.ep1, bar["adv_flux_f3"]), ("lwa_baro", q.lwa, bar["lwa_baro"])]
        ncl = storage(q, "ncforce", s)
        if ncl is not None:
            pairs.append(("ncforce_baro", ncl, bar["ncforce_baro"]))
        for name, lay, avg in pairs:
            x, y = hm.out(lay, 1), hm.out(avg, 0)
            sx = 1.2 * rec.amax(x)
            av.append(dict(n=name, layer=rec.qf(x, sx), baro=rec.q(y, sx)))
        x, y = hm.glob(q.interpolated_u, 1), hm.out(bar["u_baro"], 0)
        sx = 1.2 * rec.amax(x)
        av.append(dict(n="u_baro", layer=rec.qf(x, sx), baro=rec.q(y, sx)))
        r["av"] = av
        F = hm.out(bar["flux_vector_lambda_baro"], 0)
        sF = 1.5 * rec.amax(F, *[hm.out(bar[k], 0) for k in ("adv_flux_f1", "adv_flux_f2", "adv_flux_f3")])
        r["F"] = rec.q(F, sF)
        r["F1"], r["F2"], r["F3"] = (rec.q(hm.out(getattr(q, k), 0), sF) for k in ("adv_flux_f1", "adv_flux_f2", "adv_flux_f3"))
        r["conv"] = rec.q(hm.out(bar["convergence_zonal_advective_flux"], 0), 16 * sF / (2 * f["a"] * 2 * np.pi / f["nlon"]))
        e2, e3 = hm.out(q.ep2, 1), hm.out(q.ep3, 1)
        e2[:, :b["jb"] + 1] = e3[:, :b["jb"] + 1] = 0.0
        sE = 1.5 * rec.amax(e2, e3)
        r["ep2"], r["ep3"] = rec.qf(e2, sE), rec.qf(e3, sE)
        r["div"] = rec.q(hm.out(bar["divergence_eddy_momentum_flux"], 0), 16 * sE / (2 * sc["ady"]))
        r["phi"] = rec.q(hm.out(bar["flux_vector_phi_baro"], 0), sc["u"] ** 2)
        hs.append(r)
    return {"h": hs}


def generate(ctx, fn, tag, cap=None):
    for cid, s in scenarios(ctx, cap):
        ctx.case(f"{tag}-{cid}", f"{tag} {scen.name(s)}", lambda s=s: fn(s), replay={"scenario": s})


# ---- C24 -----------------------------------------------------------------------------------
def heating(s, inp):
    f = scen.full(s)
    rng = np.random.default_rng(f["seed"] + 5)
    return rng.normal(size=inp["t"].shape) * 1e-4


def forced(s):
    f = scen.full(s)
    q, inp, prof, nc1 = solve(s, forcing=True)
    rng = np.random.default_rng(f["seed"] + 17)
    nc2 = np.where(nc1 == 0.0, 0.0, rng.normal(size=nc1.shape) * 2e-10 + np.sign(nc1) * 1e-10)
    ka, kb = 3, -2
    runs, obs = {}, {}
    for name, nc in (("none", None), ("zero", nc1 * 0), ("a", nc1), ("b", nc2), ("c", ka * nc1 + kb * nc2)):
        o = scen.pipeline(s, inp, ncforce=nc)
        obs[name] = o
        runs[name] = {k: np.array(v) for k, v in scen.outputs(o, [n for n in scen.ALL if n != "static_stability"]).items()}
        runs[name]["layer"] = storage(o, "ncforce", s)
    dep = {n: all(rec.digest(runs[k][n]) == rec.digest(runs["none"][n]) for k in runs)
           for n in runs["none"] if n not in ("ncforce_baro", "layer")}
    dep["static_stability"] = all(rec.digest(obs[k].static_stability) == rec.digest(obs["none"].static_stability) for k in obs)
    zero = all(not np.any(runs[k]["ncforce_baro"]) and (runs[k]["layer"] is None or not np.any(runs[k]["layer"]))
               for k in ("none", "zero"))
    sc = 6.0 * max(rec.amax(runs["a"]["ncforce_baro"]), rec.amax(runs["b"]["ncforce_baro"]))
    lin = {k: rec.q(np.nan_to_num(runs[k]["ncforce_baro"], nan=9e9).ravel(), sc) for k in "abc"}
    rec_ = dict(lin=dict(lin, ka=ka, kb=kb), zero=bool(zero), dep=dep, h=[])
    if f["nlat"] % 2 == 0:
        return rec_
    heat = heating(s, inp)
    ncq = np.asarray(q.compute_ncforce_from_heating_rate(heat))
    for hm in hemis(s):
        b, scl = base(hm, q, prof)
        r = {k: b[k] for k in ("south", "lo", "jb", "n", "m", "levels", "q", "Q", "c", "s", "up", "dn")}
        if runs["a"]["layer"] is not None:
            r["pr"] = []
            for name in "ab":
                nc = hm.glob(dict(a=nc1, b=nc2)[name], 1)
                sn = 2 * rec.amax(nc)
                r["pr"].append(dict(n="forcing " + name, nc=rec.qf(nc, sn),
                                    layer=rec.q(hm.out(runs[name]["layer"], 1), sn * scl["len"])))
        sh = 3 * rec.amax(heat)
        st = np.array([prof[2], prof[3]])
        own, other = (st[0], st[1]) if hm.south else (st[1], st[0])
        zl = -f["h"] * np.log(inp["plev"] / 1000.0)
        r.update(heat=rec.qf(hm.glob(heat, 1), sh), z=rec.q(zl, 2 * zl[-1]), zk=rec.q(cubic.heights(f), 2 * zl[-1]),
                 st=rec.q(own, 2 * st.max()), so=rec.q(other, 2 * st.max()),
                 nc=rec.q(hm.glob(ncq, 1), 2 * f["om"] * sh / (st.min() * f["dz"])))
        rec_["h"].append(r)
    return rec_


def generate_forced(ctx):
    base = [odd(s) if i % 3 else s for i, s in enumerate(scen.spread(ctx))]
    for r in range(1 if ctx.quick else 8):
        for i, s in enumerate(base):
            s = dict(s, seed=3000 * ctx.seed + 100 * r + i)
            ctx.case(f"forced-{r}-{i}", f"forced {scen.name(s)}", lambda s=s: forced(s), replay={"scenario": s})

"""Pairs of runs in different units of length, time and height, for the Units specification (C23)."""
import numpy as np
from vf import scen, rec
from checks import symmetry

CONST = dict(omega="om", planet_radius="a", dz="dz", scale_height="h", dry_gas_constant="rr", cp="cp")
# powers of (length, time, height) by which each given quantity is converted; judged against the specification
CONVERT = dict(u=(1, -1, 0), v=(1, -1, 0), theta=(0, 0, 0), omega=(0, -1, 0), planet_radius=(1, 0, 0), dz=(0, 0, 1),
               scale_height=(0, 0, 1), dry_gas_constant=(2, -2, 0), cp=(2, -2, 0), ncforce=(0, -2, 0), heating_rate=(0, -1, 0),
               vort=(0, -1, 0), area=(2, 0, 0), dmu=(1, 0, 0), vgrad=(-2, -1, 0))


def power(n, u):
    return int(sum(a * b for a, b in zip(CONVERT[n], u)))


def times(x, n, u):
    return np.ldexp(1.0, power(n, u)) * x


def rows(x, dev=False):
    """each row: integers and the power of two they are measured in"""
    x = np.asarray(x, float)
    x = x.reshape(-1, x.shape[-1]) if x.ndim > 1 else x[None, :]
    if dev:
        x = x - x.mean(axis=-1, keepdims=True)
    fin = np.where(np.isfinite(x), np.abs(x), 0.0)
    e = np.where(fin.max(axis=1) > 0, np.frexp(fin.max(axis=1))[1], -1000)
    top = e.max()
    e = np.zeros_like(e) if top == -1000 else np.maximum(e, top - 10)
    return {"e": [int(k) for k in e], "v": rec.q(x, np.ldexp(1.0, e)[:, None])}


def qg(s, u, inp, nc, heat):
    f = scen.full(s)
    g = dict(f, **{k: float(times(f[k], n, u)) for n, k in CONST.items()})
    i2 = dict(inp, **{k: times(inp[k], k, u) for k in "uv"})
    q = scen.pipeline(g, i2, ncforce=times(nc, "ncforce", u))
    o = scen.outputs(q, [n for n in scen.ALL if n != "static_stability"])
    st = q.static_stability
    if isinstance(st, tuple):
        o["stat_s"], o["stat_n"] = st
    else:
        o["stat"] = st
    proj = getattr(getattr(q, "layerwise_flux_terms_storage", None), "ncforce", None)
    if proj is not None:
        o["layer_ncforce"] = proj
    o["ncforce_from_heating"] = q.compute_ncforce_from_heating_rate(times(heat, "heating_rate", u))
    w = scen.pipeline(g, i2, upto="ref")
    w.compute_lwa_only()
    o["only_lwa"], o["only_u"] = w.lwa_baro, w.u_baro
    return o


def pair(s, u):
    f = scen.full(s)
    inp = scen.inputs(s)
    nc = symmetry.forcing(s, inp)
    heat = np.random.default_rng(f["seed"] + 5).normal(size=inp["t"].shape) * 1e-5
    a, b = qg(s, (0, 0, 0), inp, nc, heat), qg(s, u, inp, nc, heat)
    return compare(u, a, b, ["u", "v", "theta", "ncforce", "heating_rate", *CONST])


def compare(u, a, b, given):
    names = sorted(n for n in a if n in b)
    enc = lambda o: {n: rows(o[n], n in ("ptref", "interpolated_theta")) for n in names}
    return {"u": [*u, 0], "given": {n: power(n, u) for n in given}, "out": names, "kind": {n: n.split(":")[0] for n in names}, "a": enc(a), "b": enc(b)}


def sphere(sd, u):
    """the barotropic class and the wrapper functions"""
    from falwa import wrapper as W
    from falwa.barotropic_field import BarotropicField
    rng = np.random.default_rng(sd)
    n, m = int(rng.integers(9, 16)), int(rng.integers(4, 9))
    y, x = np.linspace(-90, 90, n), np.linspace(0, 360, m, endpoint=False)
    R, dp = float(rng.choice([6.378e6, 3.1e6, 1.0])), np.pi / (n - 1)
    cl = np.abs(np.cos(np.deg2rad(y)))
    dmu = R * cl * dp
    area = R * R * dp * (2 * np.pi / m) * cl[:, None] * np.ones((n, m))
    vort = 1e-4 * (np.sin(np.deg2rad(y))[:, None] + 0.3 * rng.normal(size=(n, m)))
    vg, F = rng.normal(size=(n, m)) * 1e-16, rng.normal(size=(n, m)) * 1e-10
    th = 300 + 30 * cl[:, None] + rng.normal(size=(n, m)) * 5
    npart = int(rng.integers(n, 4 * n))

    def run(u):
        r, d, ar = float(times(R, "planet_radius", u)), times(dmu, "dmu", u), times(area, "area", u)
        q, g, f = times(vort, "vort", u), times(vg, "vgrad", u), times(F, "ncforce", u)
        o = {}
        part = bool(sd % 2)
        b = BarotropicField(x, y, q, planet_radius=r, n_partitions=npart, return_partitioned_lwa=part)
        o["baro_qref:class"], o["baro_lwa:class"] = b.equivalent_latitudes, b.lwa
        b = BarotropicField(x, y, q, area=ar, dphi=dp * np.ones(n), planet_radius=r, n_partitions=npart)
        o["baro_qref:class, geometry given"], o["baro_lwa:class, geometry given"] = b.equivalent_latitudes, b.lwa
        o["baro_qref:eqlat"], o["baro_lwa:eqlat"] = W.barotropic_eqlat_lwa(y, q, ar, d, npart, planet_radius=r)
        o["baro_lwa:input qref"] = W.barotropic_input_qref_to_compute_lwa(y, np.sort(q.mean(axis=1)), q, ar, d, planet_radius=r)
        o["baro_qref:hemispheric"] = W.eqvlat_hemispheric(y, q, ar, n_points=npart, planet_radius=r)
        o["baro_qref:bracket"], o["baro_bracket:bracket"] = W.eqvlat_bracket_hemispheric(y, q, ar, n_points=npart, planet_radius=r, vgrad=g)
        o["baro_qref:qgpv"], o["baro_lwa:qgpv"] = W.qgpv_eqlat_lwa(y, q, ar, d, n_points=npart, planet_radius=r)
        o["baro_qref:forced"], o["baro_lwa:forced"], o["baro_forcing:forced"] = W.qgpv_eqlat_lwa_ncforce(
            y, q, f, ar, d, n_points=npart, planet_radius=r)
        z = W.qgpv_eqlat_lwa_options(y, q, ar, d, n_points=npart, vgrad=g, ncforce=f, planet_radius=r)
        for k, n_ in (("qref", "baro_qref"), ("lwa_result", "baro_lwa"), ("brac_result", "baro_bracket"), ("capsigma", "baro_forcing")):
            o[n_ + ":options"] = z[k]
        o["theta_qref:theta"], o["theta_lwa:theta"] = W.theta_lwa(y, th, ar, d, n_points=npart, planet_radius=r)
        from falwa import basis
        o["baro_qref:basis"], o["baro_fawa:basis"] = basis.eqvlat_fawa(y, q, ar, npart, planet_radius=r)
        o["baro_fawa:basis"] = o["baro_fawa:basis"][2:-1]
        return o
    return compare(u, run((0, 0, 0)), run(u), ["vort", "area", "dmu", "vgrad", "ncforce", "planet_radius", "theta"])


def generate(ctx):
    rng = np.random.default_rng(ctx.seed)
    for r in range(2 if ctx.quick else 24):
        for i, s in enumerate(scen.spread(ctx)):
            s = dict(s, seed=1000 * ctx.seed + 100 * (r // 2) + i)
            if r > 1:
                s["kind"] = ("generic", "rough")[(r // 2 + i) % 2]
            u = [int(x) for x in rng.integers(1, 7, size=3) * rng.choice([-1, 1], size=3)]
            if r % 2:                              # one unit alone
                u = [x if k == (i + r // 2) % 3 else 0 for k, x in enumerate(u)]
            ctx.case(f"units-{r}-{i}", f"units 2^{u} {scen.name(s)}", lambda s=s, u=u: pair(s, u), replay={"scenario": s, "units": u})
    for k in range(20 if ctx.quick else 300):
        u = [int(x) for x in rng.integers(1, 9, size=3) * rng.choice([-1, 1], size=3)]
        sd = 10000 * ctx.seed + k
        ctx.case(f"sphere-{k}", f"barotropic analysis, units 2^{u}, draw {sd}", lambda sd=sd, u=u: sphere(sd, u), replay={"draw": sd, "units": u})

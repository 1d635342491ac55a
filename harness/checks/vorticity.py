"""QGPV recorded for the Vorticity specification (C13)."""
import numpy as np
from vf import scen, rec, cubic
from checks.budget import scenarios


def pv(s):
    f = scen.full(s)
    inp, ps, pn = cubic.background(s)
    q = scen.pipeline(s, inp, upto="interp")
    ts, tn, ss, sn = cubic.profiles(s, ps, pn)
    n, m, dz, H = f["nlat"], f["nlon"], f["dz"], f["h"]
    u, v, th, Q = (np.asarray(getattr(q, k), float) for k in ("interpolated_u", "interpolated_v", "interpolated_theta", "qgpv"))
    eq = n // 2 + 1
    t = th.copy()
    t[:, :eq] -= ts[:, None, None]
    t[:, eq:] -= tn[:, None, None]
    su, st = 1.2 * rec.amax(u, v), 1.2 * rec.amax(t)
    smin = min(ss.min(), sn.min())
    dl, dp = 2 * np.pi / m, np.pi / (n - 1)
    cst = st / (smin * 2 * dz)                         # stretching in units of the factor, times up to 2
    om, kv, ku = 2 * f["om"], su / (2 * f["a"] * dl), su / (2 * f["a"] * dp)
    fmax = om + 2 * ku * 1.2
    unit = 4.0 * max(rec.amax(Q), fmax, 2 * kv)
    return dict(n=n, m=m, levels=f["kmax"], eq=eq, zonal=f["cls"] != "NHN22", u=rec.qf(u, su), v=rec.qf(v, su), t=rec.qf(t, st),
                q=[rec.q(x, unit) for x in Q], c=np.clip(np.rint(np.cos(np.linspace(-np.pi / 2, np.pi / 2, n)) * rec.ONE), 0, rec.ONE).astype(int).tolist(),
                s=rec.q(np.sin(np.linspace(-np.pi / 2, np.pi / 2, n)), 1.0), om=int(rec.q(om, unit)), kv=int(rec.q(kv, unit)),
                ku=int(rec.q(ku, unit)), up=int(rec.q(np.exp(dz / H), 1.0)), dn=int(rec.q(np.exp(-dz / H), 1.0)),
                rs=rec.q(smin / ss, 1.0), rn=rec.q(smin / sn, 1.0), cst=int(rec.q(cst / 8, 1.0)), tol=24)


def generate(ctx):
    for cid, s in scenarios(ctx):
        ctx.case(f"pv-{cid}", f"pv {scen.name(s)}", lambda s=s: pv(s), replay={"scenario": s})

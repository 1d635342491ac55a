"""PV reference states recorded for the Rearrange specification (C07)."""
import numpy as np
from vf import scen, rec, cubic
from checks.budget import scenarios, hemis


def parts(s):
    f = scen.full(s)
    n = f["nlat"] + (f["nlat"] % 2 == 0)
    return n if f["cls"] == "NHN22" else (f["npart"] or n)


def state(s, exchange=False):
    f = scen.full(s)
    inp = cubic.background(s)[0]
    if exchange:
        inp = dict(inp, u=np.repeat(inp["u"].mean(axis=-1, keepdims=True), f["nlon"], axis=-1), v=np.zeros_like(inp["v"]))
    q = scen.pipeline(s, inp, upto="ref")
    q2 = None
    if exchange:
        rng = np.random.default_rng(s["seed"])
        t2 = np.array(inp["t"])
        for j in range(f["nlat"]):
            t2[:, j] = t2[:, j][:, rng.permutation(f["nlon"])]
        q2 = scen.pipeline(s, dict(inp, t=t2), upto="ref")
    lat = np.linspace(-np.pi / 2, np.pi / 2, f["nlat"])
    dp = np.pi / (f["nlat"] - 1)
    a = np.cos(lat) * dp / f["nlon"]
    a[0] = a[-1] = 0.0
    hs = []
    for hm in hemis(s):
        sg = -1.0 if hm.south else 1.0
        glob = lambda o: sg * (np.asarray(o.qgpv, float)[:, ::-1] if hm.south else np.asarray(o.qgpv, float))
        pv, Q = glob(q), sg * hm.out(q.qref, 1)
        Q2 = sg * hm.out(q2.qref, 1) if q2 is not None else None
        lv = []
        for k in range(1, f["kmax"] - 1):
            lo, rg = pv[k].min(), pv[k].max() - pv[k].min()
            d = dict(q=rec.q(pv[k] - lo, rg), Q=rec.q(Q[k] - lo, rg))
            if Q2 is not None:
                # single-precision vorticity may differ a little on a permuted field
                if np.allclose(np.sort(pv[k], axis=-1), np.sort(glob(q2)[k], axis=-1), rtol=0, atol=rg * 2e-4):
                    d["Q2"] = rec.q(Q2[k] - lo, rg)
            lv.append(d)
        hs.append(dict(south=hm.south, n=hm.n, lv=lv, a=rec.q(a, 1.0), dq=int(rec.q(1 / (parts(s) - 1), 1.0)),
                       cap=rec.q(1 - np.sin(np.arange(hm.n) * dp), 1.0), tolX=2048))
    return {"h": hs}


def generate(ctx):
    for i, (cid, s) in enumerate(scenarios(ctx)):
        if s["cls"] != "NHN22":
            s = dict(s, npart=(s.get("npart"), 400, 150, 1500)[i % 4])
        ctx.case(f"state-{cid}", f"state {scen.name(s)}", lambda s=s: state(s), replay={"scenario": s})
        ctx.case(f"exchange-{cid}", f"exchange {scen.name(s)}", lambda s=s: state(s, True), replay={"scenario": s, "exchange": True})

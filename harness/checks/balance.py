"""Reference states recorded for the Balance specification (C14)."""
import numpy as np
from vf import scen, rec, cubic
from checks.budget import scenarios, hemis


def state(s):
    f = scen.full(s)
    inp, ps, pn = cubic.background(s)
    q = scen.pipeline(s, inp, upto="ref")
    prof = cubic.profiles(s, ps, pn)
    nh18 = f["cls"] != "NHN22"
    jb = 0 if nh18 else f["eqb"]
    K, dz, H, R, om, a = f["kmax"], f["dz"], f["h"], f["rr"], f["om"], f["a"]
    kap = R / f["cp"]
    z = cubic.heights(f)
    hs = []
    for hm in hemis(s):
        n = hm.n
        t0, st = (prof[0], prof[2]) if hm.south else (prof[1], prof[3])
        dp = np.pi / (f["nlat"] - 1)
        tb = hm.glob(q.interpolated_theta, 1).mean(axis=-1)
        ub = hm.glob(q.interpolated_u, 1).mean(axis=-1)
        U, T, Q = hm.out(q.uref, 1), hm.out(q.ptref, 1), hm.out(q.qref, 1) / (2 * om) * (-1 if hm.south else 1)
        off = tb.mean(axis=1)
        td, bd, t0d = T - off[:, None], tb - off[:, None], t0 - off
        td[:, :jb] = 0.0
        j = np.arange(n)
        c, sn = np.cos(j * dp), np.sin(j * dp)
        c[-1] = 0.0
        su = 3.0 * rec.amax(U, ub)
        stt = 2.5 * rec.amax(td, bd, t0d)
        Qn = Q[1:-1, 1:] / sn[1:]
        sq = 6.0 * rec.amax(Qn)
        smin = st.min()
        emax = np.exp(kap * z[-1] / H)
        F0 = 4 * om ** 2 * H * a ** 2 * dp ** 2 / (dz ** 2 * R)
        kA = smin / (F0 * emax)
        kF = om * a * dp * sq * smin / (F0 * emax * su)
        big = max(1.2 * np.exp(dz / 2 / H), kA * 2.1 / sn[1] / np.sin(0.5 * dp), kF / sn[1])
        g = 1
        while big / g > 0.95:
            g *= 2
        kt = 2 * om * a * H / R * 2 * dp * emax / (2 * dz) * su / stt
        kz = dz * R * np.exp(-kap * z[-2] / H) / (2 * om * dp * H * a) * (1 if nh18 else 0.5) * stt / su
        # thermal wind: both sides in units that fit
        gt = 1
        while kt / gt > 0.95:
            gt *= 2
        gz = 1
        while kz * gt / gz > 0.95:
            gz *= 2
        hs.append(dict(south=hm.south, own=bool(hm.south or f["nh"]), nh18=nh18, n=n, levels=K, jb=jb,
                       u=rec.qf(U, su), ub=rec.qf(ub[:, 0], su), T=rec.qf(td, stt * gt), tb=rec.qf(bd, stt * gt), t0=rec.qf(t0d, stt * gt),
                       z=(T == 0).tolist(), q=rec.qf(Q, sq), c=rec.q(c, 1.0), s=rec.q(sn, 1.0), sh=rec.q(np.sin((j + 0.5) * dp), 1.0),
                       ch=rec.q(np.cos((j + 0.5) * dp), 1.0), x=rec.q(np.exp(kap * z / H) / emax, 1.0),
                       xh=rec.q(np.exp(kap * (z + dz / 2) / H) / emax, 1.0), up=int(rec.q(np.exp(dz / 2 / H), 1.0)),
                       dn=int(rec.q(np.exp(-dz / 2 / H), 1.0)), st=rec.q(st, 2 * st.max()), kA=int(rec.q(kA / g, 1.0)),
                       kF=int(rec.q(kF / g, 1.0)), g=g, kt=int(rec.q(kt / gt, 1.0)), kz=int(rec.q(kz * gt / gz, 1.0)), gz=gz,
                       eps=int(rec.q(3 * f['tol'] if nh18 else 0.0, 1.0)), tolT=24, tolM=24, tolE=int(16 if not nh18 else 24 + f['tol'] * 5e6), tolZ=64))
    return {"h": hs}


def generate(ctx):
    for cid, s in scenarios(ctx):
        if s["cls"] != "NHN22":            # a loose tolerance must be met, and a tight one too
            s = dict(s, tol=max((1e-3, 1e-5, 2e-4)[s["seed"] % 3], s.get("tol", 0)))
        s = dict(s, nlat=min(s.get("nlat", 13), 49))       # the numbers of the judge have 31 bits
        ctx.case(f"state-{cid}", f"state {scen.name(s)}", lambda s=s: state(s), replay={"scenario": s})

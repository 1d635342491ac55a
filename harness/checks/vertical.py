"""Runs of interpolate_fields recorded for the Vertical specification (C12)."""
import numpy as np
from vf import scen, rec, cubic


def columns(s, raw=False):
    f = scen.full(s)
    inp, ps, pn = cubic.background(s)
    if f["seed"] % 2:                   # rough columns: neighbouring levels differ a lot
        rng = np.random.default_rng(f["seed"] + 3)
        for k in "uv":
            inp[k] = inp[k] + rng.normal(0, 15, inp[k].shape)
    q = scen.pipeline(s, inp, upto="interp")
    z = -f["h"] * np.log(inp["plev"] / 1000.0)
    zk = cubic.heights(f)
    zu = 2.0 * z[-1]
    ex = np.exp(f["rr"] / f["cp"] * z / f["h"])
    n = f["nlat"]
    na = n if n % 2 else n + 1
    fld = []
    for name in ("interpolated_u", "interpolated_v"):
        x, y = inp[name[-1]], getattr(q, name)
        sc = 3.0 * rec.amax(x)
        fld.append(dict(n=name, theta=False, tol=64, **{"in": rec.qf(x, sc)}, out=rec.q(y, sc)))
    # potential temperature: unit sT * max(ex)
    sT = 1.5 * rec.amax(inp["t"])
    y = q.interpolated_theta
    fld.append(dict(n="interpolated_theta", theta=True, tol=64, **{"in": rec.qf(inp["t"], sT)}, out=rec.q(y, sT * ex[-1])))
    sth = sT * ex[-1]
    pk = 1
    while pk * sth < 4 * max(np.abs(p.coeffs * np.array([z[-1] ** e for e in range(p.order, -1, -1)])).max() for p in (ps, pn)):
        pk *= 2

    def coef(p):
        c = np.zeros(4)
        c[4 - len(p.coeffs):] = p.coeffs
        return c * np.array([z[-1] ** e for e in (3, 2, 1, 0)])
    # value unit u with mean*sth == cubic*u ; the spec compares cubic*2 with mean*pk, hence u = 2*sth/pk
    u = 2 * sth / pk
    big = max(np.abs(coef(p)).max() for p in (ps, pn))
    assert 3 * big / u < 1.9, (big, u)
    st = q.static_stability
    nh22 = f["cls"] == "NHN22"
    if nh22 and f["nh"]:
        sts = [("north", st)]
    elif nh22:
        sts = [("south", st[0]), ("north", st[1])]
    else:
        sts = [("both", st)]
    ya = np.linspace(-90, 90, na)
    return dict(n=n, na=na, m=f["nlon"], pre=bool(f["pre"]), z=rec.q(z, zu), zk=rec.q(zk, zu), ex=rec.q(ex / ex[-1], 1.0),
                x=rec.q(z / z[-1], 1.0), xk=rec.q(zk / z[-1], 1.0), fld=fld, pk=pk, ps=rec.q(coef(ps), u), pn=rec.q(coef(pn), u),
                jd=(na + 1) // 2 - (f["eqb"] if nh22 else 0), c=rec.q(np.cos(np.deg2rad(ya)), 1.0),
                st=[dict(n=a, v=rec.q(np.asarray(b) * z[-1], u)) for a, b in sts])


def generate(ctx):
    base = scen.spread(ctx)
    for r in range(1 if ctx.quick else 10):
        for i, s in enumerate(base):
            s = dict(s, seed=4000 * ctx.seed + 100 * r + i, jitter=(0.2, 0.45)[i % 2])
            if r:
                s["kind"] = ("generic", "rough")[(r + i) % 2]
            ctx.case(f"columns-{r}-{i}", f"columns {scen.name(s)}", lambda s=s: columns(s), replay={"scenario": s})

"""Atmospheres whose hemispheric mean potential temperature is exactly a cubic in height, so that the
background profile (a smoothing spline) is that polynomial."""
import numpy as np
from . import scen


def heights(f):
    return np.arange(f["kmax"]) * f["dz"]


def background(s, inp=None, make_cubic=True):
    """(inputs, south polynomial, north polynomial): area-weighted means over the analysis rows of each hemisphere."""
    f = scen.full(s)
    inp = dict(inp or scen.inputs(s))
    z = -f["h"] * np.log(inp["plev"] / 1000.0)
    ex = np.exp(f["rr"] / f["cp"] * z / f["h"])[:, None, None]
    th = inp["t"] * ex
    y = inp["ylat"]
    n = f["nlat"]
    if n % 2:
        A = np.eye(n)
        ya = y
    else:
        ya = np.linspace(-90, 90, n + 1)
        A = np.zeros((n + 1, n))
        for j in range(n + 1):
            w = j / n
            if j < n:
                A[j, j] += 1 - w
            if j > 0:
                A[j, j - 1] += w
    c = np.abs(np.cos(np.deg2rad(ya)))
    nd = (len(ya) + 1) // 2
    jd = nd - (f["eqb"] if f["cls"] == "NHN22" else 0)
    ws = np.zeros(len(ya))
    wn = np.zeros(len(ya))
    ws[:jd] = c[:jd] / c[:jd].sum()
    wn[-jd:] = c[-jd:] / c[-jd:].sum()
    ws, wn = ws @ A, wn @ A                      # weights on the user's rows
    zm = th.mean(axis=-1)
    ms, mn = zm @ ws, zm @ wn
    zs = z / z[-1]
    V = np.vander(zs, 4)
    ps, pn = (np.linalg.lstsq(V, m, rcond=None)[0] for m in (ms, mn))
    ds, dn = V @ ps - ms, V @ pn - mn
    b = np.sin(np.deg2rad(y))
    M = np.array([[1.0, b @ ws], [1.0, b @ wn]])
    co = np.linalg.solve(M, np.vstack([ds, dn]))           # (2, nlev)
    th = th + co[0][:, None, None] + co[1][:, None, None] * b[None, :, None]
    inp["t"] = th / ex
    sc = np.array([z[-1] ** -3, z[-1] ** -2, z[-1] ** -1, 1.0])
    return inp, np.poly1d(ps * sc), np.poly1d(pn * sc)


def profiles(s, ps, pn):
    """tg (kmax) of south and north as used by the analysis, and dtheta0/dz."""
    f = scen.full(s)
    h = heights(f)
    s0, n0, s1, n1 = ps(h), pn(h), ps.deriv()(h), pn.deriv()(h)
    if f["cls"] != "NHN22":
        s0 = n0 = 0.5 * (s0 + n0)
        s1 = n1 = 0.5 * (s1 + n1)
    return s0, n0, s1, n1

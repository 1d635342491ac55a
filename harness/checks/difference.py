"""Calls of the difference and statistics utilities on integer data, for the Difference specification (C25)."""
import numpy as np
from vf import rec
from vf.loose import loose

INV = np.array([0, 4, 2, 0, 1])                     # inverse of a cosine given in quarters


def out(a, unit):
    """times the denominator, in 1/256"""
    return rec.q(np.asarray(a, float) * unit, 1.0, 256)


def cosines(rng, n):
    c = rng.choice([1, 2, 4], size=n)
    if rng.random() < 0.6:
        c[0] = c[-1] = 0
    if n > 2 and rng.random() < 0.2:
        c[rng.integers(n)] = 0
    return c


def clat(rng, c):
    """vanishing cosines as they come: exactly zero or a rounding error"""
    return np.where(c == 0, rng.choice([0.0, 6.1e-17, -6.1e-17]), c / 4.0)


def call(fn, args, kw):
    """the result, and which arguments were left alone"""
    before = {k: rec.digest(v) for k, v in [*enumerate(args), *kw.items()]}
    r = fn(*args, **kw)
    return r, {f"argument {k}": bool(before[k] == rec.digest(v)) for k, v in [*enumerate(args), *kw.items()]}


def size(rng, lo, hi, most):
    """a handful, now and then as many as in practice"""
    return int(rng.integers(lo, hi) if rng.random() < 0.95 else rng.integers(hi, most + 1))


def two(name, rng):
    from falwa import utilities as U
    n, m = size(rng, 3, 8, 61), size(rng, 3, 8, 121)
    c = cosines(rng, n)
    w = INV[c]
    f, g = rng.integers(-50, 51, size=(2, n, m))
    R, dl, dp = 2.0 ** rng.integers(-3, 24), 2.0 ** -rng.integers(0, 5), 2.0 ** -rng.integers(0, 5)
    r = dict(fn=name, n=n, m=m, f=f.tolist(), c=c.tolist(), w=w.tolist())
    cl = clat(rng, c)
    ff, gg = f.astype(float), g.astype(float)
    if name == "zonal_convergence":
        kw = dict(planet_radius=R)
        if rng.random() < 0.3:                      # a tolerance that excludes a whole cosine
            kw["tol"] = 0.3
            w = np.where(c == 1, 0, w)
            r["w"] = w.tolist()
        o, r["kept"] = call(U.zonal_convergence, (ff, cl, dl), kw)
        unit = 2 * R * dl
    elif name == "meridional_divergence":
        o, r["kept"] = call(U.meridional_divergence, (ff, cl, dp), dict(planet_radius=R))
        unit = 8 * R * dp
    else:
        c[1:-1] = np.maximum(c[1:-1], 1)            # inside the cosine does not vanish
        r.update(c=c.tolist(), w=INV[c].tolist(), g=g.tolist(), il=int(1 / dl), ip=int(1 / dp))
        o, r["kept"] = call(U.curl_2d, (ff, gg, clat(rng, c), dl, dp), dict(planet_radius=R))
        unit = 8 * R
    r["shape"] = np.shape(o) == f.shape
    r["out"] = out(o, unit)
    return r


def zder(rng):
    from falwa import utilities as U
    K, eq, m = size(rng, 3, 6, 7), size(rng, 2, 5, 31), size(rng, 1, 4, 60)
    n = 2 * eq - 1
    s, t = rng.integers(1, 5, size=(2, K))
    f = rng.integers(-2, 3, size=(K, n, m)) * 840          # the largest result stays below rec.CLIP
    d = 2 ** np.arange(K - 1, -1, -1)
    mu = rng.integers(-3, 4, size=(K, n))
    dz = 2.0 ** rng.integers(-2, 11)
    o, kept = call(U.z_derivative_of_prod, (t / 1.0, s / 1.0, K, eq, dz, d / 1.0, f / 1.0, mu / 1.0), {})
    return dict(fn="z_derivative_of_prod", K=K, n=n, m=m, eq=eq, s=s.tolist(), t=t.tolist(), f=f.tolist(), d=d.tolist(), mu=mu.tolist(),
                kept=kept, shape=np.shape(o) == f.shape, out=out(o, 2 * dz))


def stability(rng):
    from falwa import utilities as U
    K, n, m = size(rng, 3, 6, 60), size(rng, 2, 9, 46), size(rng, 1, 5, 12)
    area = rng.integers(1, 6, size=(n, m))
    f = rng.integers(-20, 21, size=(K, n, m))
    kw, sh, nh = {}, n // 2, n // 2
    if rng.random() < 0.5:
        kw["s_et"] = sh = int(rng.integers(1, n + 1))
    if rng.random() < 0.5:
        kw["n_et"] = nh = int(rng.integers(1, n + 1))
    dz = 2.0 ** rng.integers(-2, 11)
    z = np.arange(K) * dz + rng.choice([0.0, 64.0])
    th, ar = f / 1.0, area / 1.0
    if rng.random() < 0.4:                          # zonal means instead
        th, ar = th.mean(axis=2), ar.mean(axis=1)
        if rng.random() < 0.5:
            ar = area / 1.0
    o, kept = call(U.static_stability, (z, ar, th), kw)
    A = {"s": area[:sh].sum(), "n": area[n - nh:].sum()}
    t0 = {"n": o[0], "s": o[1]}
    st = {"n": o[2], "s": o[3]}
    return dict(fn="static_stability", K=K, n=n, m=m, area=area.tolist(), f=f.tolist(), sh=sh, nh=nh, kept=kept,
                shape=all(np.shape(x) == (K,) for x in o),
                t0={h: out(t0[h], float(A[h]) * m) for h in "ns"}, st={h: out(st[h], float(A[h]) * m * 2 * dz) for h in "ns"})


def qgpv(rng):
    from falwa import utilities as U
    K, m = size(rng, 3, 6, 9), size(rng, 1, 4, 60)
    lat = [[-90, -30, 30, 90], [-90, -30, 0, 30, 90], [-30, 30], [-30, 0, 30], [-90, -30, -30, 30, 30, 90]][int(rng.integers(5))]
    sn = [{-90: -2, -30: -1, 0: 0, 30: 1, 90: 2}[x] for x in lat]
    n = len(lat)
    s, t = rng.integers(1, 4, size=(2, K))
    ts, tn = rng.integers(200, 300, size=(2, K))
    q = rng.integers(-4, 5, size=(K, n, m)) * 6
    h = n // 2
    f = np.where((np.arange(n) >= n - h)[None, :, None], tn[:, None, None], ts[:, None, None]) + q
    av = rng.integers(-5, 6, size=(K, n, m))
    dz = 2.0 ** rng.integers(-2, 11)
    H = dz / np.log(2.0)
    d = 2 ** np.arange(K - 1, -1, -1)               # density, times 2^(K-1)
    z = np.arange(K) * dz
    kw = dict(scale_height=H)
    if rng.random() < 0.5:
        kw["nlat_s"] = h
    if n > 3 and rng.random() < 0.3:
        kw["nlat_s"] = h = h - 1
    junk = np.full((K, n, m), np.nan)               # memory the code might pick up
    del junk
    om = 2.0 * dz                                   # such that 2 omega / (2 dz) = 2
    avf = av / 1.0
    (o, dd), kept = call(U.compute_qgpv_givenvort, (om, n, m, K, z, np.array(lat, float), avf, f / 1.0, tn / 1.0, ts / 1.0, t / 1.0, s / 1.0), kw)
    # sin in halves: f = 2 omega sn/2; stretching * f = sn * (2 dz stretching)
    return dict(fn="compute_qgpv_givenvort", K=K, n=n, m=m, h=h, s=s.tolist(), t=t.tolist(), ts=ts.tolist(), tn=tn.tolist(), f=f.tolist(),
                av=av.tolist(), d=d.tolist(), sn=[2 * x for x in sn], kept=kept, shape=np.shape(o) == f.shape == np.shape(dd),
                dz=out(dd * d[:, None, None], 2 * dz), out=out(o * d[:, None, None], 2.0))


def covariance(rng, src):
    N, n, m = size(rng, 2, 7, 60), size(rng, 1, 5, 20), size(rng, 1, 6, 20)
    f, g = rng.integers(-30, 31, size=(2, N, n, m))
    o, kept = call(loose('stat_utils', src).calculate_covariance, (f / 1.0, g / 1.0), {})
    return dict(fn="calculate_covariance", N=N, n=n, m=m, f=f.tolist(), g=g.tolist(), kept=kept, shape=np.shape(o) == (n, m), out=out(o, N * (N - 1.0)))


FN = ["zonal_convergence", "meridional_divergence", "curl_2d", "zder", "stability", "qgpv", "covariance"]


def record(fn, seed, src):
    rng = np.random.default_rng(seed)
    if fn == "covariance":
        return covariance(rng, src)
    f = {"zder": zder, "stability": stability, "qgpv": qgpv}.get(fn)
    return f(rng) if f else two(fn, rng)


def generate(ctx):
    for k in range(60 if ctx.quick else 2000):
        for x, fn in enumerate(FN):
            sd = 100000 * ctx.seed + 10 * k + x
            ctx.case(f"{fn}-{sd}", f"{fn}, draw {sd}", lambda fn=fn, sd=sd: record(fn, sd, ctx.src), replay={"function": fn, "draw": sd})

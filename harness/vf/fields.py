"""Synthetic but physically sensible input fields on small grids, from a seed."""
import numpy as np

H, R, CP, P0 = 7000.0, 287.0, 1004.0, 1000.0
KAPPA = R / CP


def lat_grid(nlat):
    """Global latitudes: odd nlat has an exact equator row, even nlat straddles it."""
    y = np.linspace(-90.0, 90.0, nlat)
    if nlat % 2:
        y[nlat // 2] = 0.0
    return y


def lon_grid(nlon):
    return np.linspace(0.0, 360.0, nlon, endpoint=False)


def plev_grid(nlev, ztop, rng=None, jitter=0.0, h=H):
    """Descending pressure whose pseudo-heights run from 0 to ztop."""
    z = np.linspace(0.0, ztop, nlev)
    if jitter and rng is not None:
        dz = z[1] - z[0]
        z[1:-1] += rng.uniform(-jitter, jitter, nlev - 2) * dz
    return P0 * np.exp(-z / h), z


def state(seed, nlat, nlon, z, kind="generic", eddy=1.0, h=H, r=R, cp=CP, hemi=0.0):
    """u, v, T on (z, lat, lon).  Smooth, hemispherically asymmetric, statically stable."""
    rng = np.random.default_rng(seed)
    lat = np.deg2rad(lat_grid(nlat))[None, :, None]
    lon = np.deg2rad(lon_grid(nlon))[None, None, :]
    zz = np.asarray(z)[:, None, None]
    zs = np.minimum(zz / 12000.0, 1.6)
    shape = (len(z), nlat, nlon)
    jet = (18.0 + 4 * hemi) * np.exp(-((lat - 0.75) / 0.35) ** 2) + 24.0 * np.exp(-((lat + 0.8) / 0.33) ** 2)
    u = np.ones(shape) * (jet * (0.35 + zs) - 4.0 * np.cos(lat) ** 6)
    v = np.zeros(shape)
    t = np.ones(shape) * (288.0 - 0.0058 * np.minimum(zz, 12500.0)
                          - 30.0 * np.sin(lat) ** 2 * np.exp(-zz / 9000.0)
                          - 3.0 * np.sin(lat) * np.exp(-zz / 9000.0) + 0.0012 * np.maximum(zz - 12500.0, 0.0))
    for m in range(1, 4):
        for _ in range(2):
            ph, pz = rng.uniform(0, 2 * np.pi, 2)
            c = rng.uniform(-1.1, 1.1)
            w = rng.uniform(0.25, 0.5)
            env = np.exp(-((lat - c) / w) ** 2) * np.cos(lat)
            tilt = m * lon + ph + 0.6 * zs + pz
            a = eddy * rng.uniform(3.0, 8.0) / m
            u = u + a * env * np.cos(tilt) * (0.5 + 0.5 * zs)
            v = v + a * env * np.sin(tilt + rng.uniform(-0.5, 0.5)) * (0.5 + 0.5 * zs)
            t = t + 0.35 * a * env * np.cos(tilt + 0.9) * np.exp(-zz / 14000.0)
    if kind == "rough":
        u = u + eddy * rng.normal(0, 2.0, shape) * np.cos(lat)
        v = v + eddy * rng.normal(0, 2.0, shape) * np.cos(lat)
        t = t + eddy * rng.normal(0, 0.6, shape) * np.cos(lat)
    if kind == "zonal":
        u, v, t = (np.repeat(f.mean(axis=-1, keepdims=True), nlon, axis=-1) for f in (u, v, t))
        v = v * 0.0
    # poles: single-valued
    for f in (u, v):
        f[:, 0, :] = 0.0
        f[:, -1, :] = 0.0
    for j in (0, -1):
        t[:, j, :] = t[:, j, :].mean(axis=-1, keepdims=True)
    return u, v, t

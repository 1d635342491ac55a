"""Real runs of falwa.basis, BarotropicField and the wrappers (C20, C21, C22)."""
from fractions import Fraction
import inspect
import itertools
import numpy as np
from falwa import basis, wrapper
from falwa.barotropic_field import BarotropicField

U = 4096


def asn(M, upto=None):
    """Latitudes enclosing A of the sphere's M units of area; cells may add up to slightly more (the pole, then)."""
    A = np.arange((upto or M) + 1)
    return np.rint(np.degrees(np.arcsin(np.clip(2 * A / M - 1.0, -1, 1))) / 180 * 65536).astype(int).tolist()


def ints(x, s, off=0.0):
    with np.errstate(all="ignore"):
        y = (np.asarray(x, float) - off) * (U / s)
    y = np.where(np.isfinite(y), y, 2 ** 29)
    return np.clip(np.rint(y), -2 ** 29, 2 ** 29).astype(int).tolist()


def tie_safe(v, lo, hi, npart, scale, off):
    """Floating-point partitions compare with the values as the exact ones do."""
    if hi == lo:
        return True
    bins = np.linspace(off + scale * lo, off + scale * hi, npart)
    for x in np.unique(v):
        for k in range(npart):
            ex = Fraction(int(hi - lo) * k, npart - 1) + int(lo)
            if (x >= ex) != ((off + scale * x) >= bins[k]):
                return False
    return True


def lat_grid(rng, nlat):
    """Evenly spaced, symmetric latitudes, in whole table units, away from exact ties with the partition latitudes."""
    half = float(rng.uniform(70, 89.7))
    return np.linspace(-half, half, nlat)


def yint(y):
    return np.rint(np.asarray(y) / 180 * 65536).astype(int).tolist()


class Sphere:
    """One field with its geometry; everything real is an exact affine image of integers."""
    def __init__(self, rng, v, npart, M=None, small=False, ar=None):
        self.v = np.asarray(v)
        self.nlat, self.nlon = self.v.shape
        self.np_ = npart
        w = 1 + np.minimum(np.arange(self.nlat), np.arange(self.nlat)[::-1])
        self.ar = np.repeat(w[:, None], self.nlon, axis=1)
        if not small:
            extra = rng.integers(0, 2, self.ar.shape)
            self.ar = self.ar + extra + extra[::-1]          # symmetric about the equator
        if ar is not None:
            self.ar = ar
        self.M = int(self.ar.sum()) if M is None else M
        self.w = rng.integers(1, 5, self.nlat) if not small else w
        self.a = float(rng.choice([6.378e6, 3.0e6, 1.0]))
        self.s = float(rng.choice([1.0, 2.0 ** -14, 2.0 ** 5]))
        self.off = float(rng.choice([0.0, 3.0, -7.0])) * self.s
        self.ws = float(rng.choice([1.0, 2.0 ** 10]))
        self.y = lat_grid(rng, self.nlat) if ar is None else np.linspace(-90, 90, self.nlat)
        self.g = rng.integers(-6, 7, self.v.shape)
        if rng.random() < 0.25:
            self.g[:] = 5
        self.f = rng.integers(-6, 7, self.v.shape)
        self.area = self.ar * (4 * np.pi * self.a ** 2 / self.M)
        self.vort = self.off + self.s * self.v
        self.dmu = self.ws * self.w.astype(float)
        self.vgrad = self.g * 0.5
        self.forc = self.f * 0.25

    def rec(self, **k):
        d = dict(v=self.v.tolist(), ar=self.ar.tolist(), w=self.w.tolist(), np=self.np_, y=yint(self.y),
                 g=self.g.tolist(), f=self.f.tolist(), res=[])
        d.update(k)
        return d

    def q(self, x):
        return ints(x, self.s, self.off)

    def lwa(self, x):
        return ints(x, self.s * self.ws)

    def cap(self, x):
        return (np.rint(np.asarray(x) / (0.25 * self.ws) * 1)).astype(int).tolist()

    def brac(self, x):
        return ints(x, 0.5)


def near(a, b, s):
    """Two arrays as fixed point in units of a common scale."""
    a, b = np.ravel(np.asarray(a, float)), np.ravel(np.asarray(b, float))
    sc = max(np.abs(np.nan_to_num(a)).max(), np.abs(np.nan_to_num(b)).max(), 1e-300) / 2 ** 8
    return [ints(a, sc), ints(b, sc)]


# ---------------------------------------------------------------- C20
def run20(sp):
    kw = dict(planet_radius=sp.a)
    r = sp.rec()
    q1, fawa = basis.eqvlat_fawa(sp.y, sp.vort, sp.area, sp.np_, **kw)
    q2, none = basis.eqvlat_fawa(sp.y, sp.vort, sp.area, sp.np_, output_fawa=False, **kw)
    q3, n3 = basis.eqvlat_vgrad(sp.y, sp.vort, sp.area, sp.np_, **kw)
    q4, b4 = basis.eqvlat_vgrad(sp.y, sp.vort, sp.area, sp.np_, vgrad=sp.vgrad, **kw)
    q5, _ = wrapper.barotropic_eqlat_lwa(sp.y, sp.vort, sp.area, sp.dmu, sp.np_, **kw)
    xlon = np.linspace(0, 360, sp.nlon, endpoint=False)
    b = BarotropicField(xlon, sp.y, sp.vort, area=sp.area, n_partitions=sp.np_, planet_radius=sp.a)
    q6 = b.equivalent_latitudes
    for n, q in [("eqvlat_fawa", q1), ("eqvlat_fawa no fawa", q2), ("eqvlat_vgrad", q3), ("eqvlat_vgrad with vgrad", q4),
                 ("barotropic_eqlat_lwa", q5), ("BarotropicField", q6), ("BarotropicField again", b.equivalent_latitudes)]:
        r["res"].append({"n": n, "q": sp.q(q)})
    r["res"][3]["brac"] = sp.brac(b4)
    # wave activity in quarters of fd units of area and vorticity, minus sign and 2 pi a taken off
    r["off"] = int(sp.off / sp.s)
    r["fd"] = 1 + int((sp.ar * np.abs(sp.v + r["off"])).sum()) // 1800
    w = np.asarray(fawa) * (-2 * sp.M / sp.a / sp.s / r["fd"])
    r["res"].append({"n": "fawa", "fawa": np.clip(np.rint(np.where(np.isfinite(w), w, 2 ** 27)), -2 ** 27, 2 ** 27).astype(int).tolist()})
    return r


def run20_defaults(sp):
    """Default partitions, area, length element and radius."""
    r = sp.rec()
    xlon = np.linspace(0, 360, sp.nlon, endpoint=False)
    c = np.cos(np.deg2rad(sp.y))
    dphi = np.full(sp.nlat, np.pi / (sp.nlat - 1))
    for a in (6.378e6, 2.5e6):
        b = BarotropicField(xlon, sp.y, sp.vort, planet_radius=a) if a != 6.378e6 else BarotropicField(xlon, sp.y, sp.vort)
        area = 2 * np.pi * a * a * (c * dphi / sp.nlon)[:, None] * np.ones((1, sp.nlon))
        e = BarotropicField(xlon, sp.y, sp.vort, area=area, dphi=dphi, n_partitions=sp.nlat, planet_radius=a)
        r["res"].append({"n": f"default area {a}", "same": near(b.area, area, 1)})
        r["res"].append({"n": f"defaults {a}", "same": near(b.equivalent_latitudes, e.equivalent_latitudes, 1)})
        r["res"].append({"n": f"defaults lwa {a}", "same": near(b.lwa, e.lwa, 1)})
        ref, _ = basis.eqvlat_fawa(sp.y, sp.vort, area, sp.nlat, planet_radius=a)
        r["res"].append({"n": f"class equals function {a}", "same": near(e.equivalent_latitudes, ref, 1)})
        w = basis.lwa(sp.nlon, sp.nlat, sp.vort, ref, a * c * dphi)[0]
        r["res"].append({"n": f"class lwa equals function {a}", "same": near(e.lwa, w, 1)})
    q1 = wrapper.barotropic_eqlat_lwa(sp.y, sp.vort, sp.area, sp.dmu, None, planet_radius=sp.a)[0]
    q2 = wrapper.barotropic_eqlat_lwa(sp.y, sp.vort, sp.area, sp.dmu, sp.nlat, planet_radius=sp.a)[0]
    r["res"].append({"n": "n_points None", "same": near(q1, q2, 1)})
    return r


# ---------------------------------------------------------------- C21
def run21(sp, Q, exact):
    """Q in units of U, prescribed."""
    r = sp.rec()
    qr = sp.off + sp.s * (np.asarray(Q) / U)
    tol = 0 if exact else int(sp.w.sum()) + 1
    Qr = [int(x) for x in Q]
    v, n, m = sp.vort, sp.nlat, sp.nlon
    t, none = basis.lwa(m, n, v, qr, sp.dmu)
    parts, none2 = basis.lwa(m, n, v, qr, sp.dmu, return_partitioned_lwa=True)
    t3, c3 = basis.lwa(m, n, v, qr, sp.dmu, ncforce=sp.forc)
    p4, c4 = basis.lwa(m, n, v, qr, sp.dmu, return_partitioned_lwa=True, ncforce=sp.forc)
    t5 = wrapper.barotropic_input_qref_to_compute_lwa(sp.y, qr, v, sp.area, sp.dmu)
    add = lambda name, **k: r["res"].append({"n": name, "r": Qr, "tol": tol, **k})
    add("lwa", lwa=sp.lwa(t))
    add("lwa parts", **{"def": sp.lwa(parts[0]), "exc": sp.lwa(parts[1]), "lwa": sp.lwa(parts.sum(axis=0))})
    add("lwa ncforce", lwa=sp.lwa(t3), cap=sp.cap(c3))
    add("lwa parts ncforce", **{"def": sp.lwa(p4[0]), "exc": sp.lwa(p4[1]), "cap": sp.cap(c4)})
    add("input_qref wrapper", lwa=sp.lwa(t5))
    return r


def run21_own(sp):
    """Wave activity about the field's own reference values, through every route."""
    r = sp.rec()
    tol = int(sp.w.sum()) + 1
    xlon = np.linspace(0, 360, sp.nlon, endpoint=False)
    q, t = wrapper.barotropic_eqlat_lwa(sp.y, sp.vort, sp.area, sp.dmu, sp.np_, planet_radius=sp.a)
    q2, p = wrapper.barotropic_eqlat_lwa(sp.y, sp.vort, sp.area, sp.dmu, sp.np_, planet_radius=sp.a, return_partitioned_lwa=True)
    clat = np.abs(np.cos(np.deg2rad(sp.y)))
    dphi = sp.dmu / (sp.a * clat)
    kw = dict(area=sp.area, dphi=dphi, n_partitions=sp.np_, planet_radius=sp.a)
    b = BarotropicField(xlon, sp.y, sp.vort, **kw)
    b3 = BarotropicField(xlon, sp.y, sp.vort, return_partitioned_lwa=True, **kw)
    add = lambda name, qq, **k: r["res"].append({"n": name, "r": sp.q(qq), "tol": tol, **k})
    add("barotropic_eqlat_lwa", q, lwa=sp.lwa(t))
    add("barotropic_eqlat_lwa parts", q2, **{"def": sp.lwa(p[0]), "exc": sp.lwa(p[1])})
    if int(sp.v.sum()) % 2 == 0:
        add("BarotropicField lwa first", b.equivalent_latitudes * 1.0, lwa=sp.lwa(b.lwa))
    else:
        w = b.lwa
        add("BarotropicField", b.equivalent_latitudes, lwa=sp.lwa(w))
    w3 = b3.lwa
    add("BarotropicField parts", b3.equivalent_latitudes, **{"def": sp.lwa(w3[0]), "exc": sp.lwa(w3[1])})
    return r


# ---------------------------------------------------------------- C22
def run22(sp, ns, sign, given_q):
    r = sp.rec(ns=int(ns), sign=sign)
    tol = int(sp.w.sum()) + 1
    kw = dict(nlat_s=int(ns), n_points=sp.np_, planet_radius=sp.a)
    y, v, ar, d = sp.y, sp.vort, sp.area, sp.dmu

    def add(name, q=None, lwa=None, cap=None, brac=None, tol=tol, **k):
        e = {"n": name, **k}
        if q is not None:
            e["q"] = sp.q(q)
            out = [0 if o else x for x, o in zip(e["q"], outside)]
            raw = np.asarray(q)
            e["q"] = [(0 if raw[i] == 0 else U * 1000) if o else x for i, (x, o) in enumerate(zip(e["q"], outside))]
            e["r"], e["tol"] = out, tol
        if lwa is not None:
            e["lwa"] = sp.lwa(lwa)
        if cap is not None:
            e["cap"] = sp.cap(cap)
        if brac is not None:
            e["brac"] = sp.brac(brac)
        r["res"].append(e)
    n = sp.nlat
    outside = [ns <= j < n - ns for j in range(n)]
    if sign == 1:
        q, w = wrapper.theta_lwa(y, v, ar, d, **kw)
        add("theta_lwa", q, w)
        if ns == n // 2:
            q0, w0 = wrapper.theta_lwa(y, v, ar, d, planet_radius=sp.a)
            q1, w1 = wrapper.theta_lwa(y, v, ar, d, nlat_s=ns, n_points=ns, planet_radius=sp.a)
            add("theta_lwa defaults", same=near(np.r_[q0, w0.ravel()], np.r_[q1, w1.ravel()], 1))
    else:
        # the northern rows see the negated field: work with a field whose negation is exactly representable
        add("eqvlat_hemispheric", wrapper.eqvlat_hemispheric(y, v, ar, **kw))
        q, none = wrapper.eqvlat_bracket_hemispheric(y, v, ar, **kw)
        add("eqvlat_bracket_hemispheric", q, keys=[str(none is None)], want=["True"])
        q, br = wrapper.eqvlat_bracket_hemispheric(y, v, ar, vgrad=sp.vgrad, **kw)
        add("eqvlat_bracket_hemispheric vgrad", q, brac=br)
        q, w = wrapper.qgpv_eqlat_lwa(y, v, ar, d, **kw)
        add("qgpv_eqlat_lwa", q, w)
        q, w, c = wrapper.qgpv_eqlat_lwa_ncforce(y, v, sp.forc, ar, d, **kw)
        add("qgpv_eqlat_lwa_ncforce", q, w, c)
        for vg, nf in itertools.product((False, True), repeat=2):
            o = wrapper.qgpv_eqlat_lwa_options(y, v, ar, d, vgrad=sp.vgrad if vg else None, ncforce=sp.forc if nf else None, **kw)
            want = sorted(["qref", "lwa_result"] + ["brac_result"] * vg + ["capsigma"] * nf)
            add(f"qgpv_eqlat_lwa_options vgrad={vg} ncforce={nf}", o.get("qref"), o.get("lwa_result"), o.get("capsigma"),
                o.get("brac_result"), keys=sorted(o), want=want)
        qg = sp.off + sp.s * (np.asarray(given_q) / U)
        w = wrapper.qgpv_input_qref_to_compute_lwa(y, qg, v, ar, d, nlat_s=int(ns), planet_radius=sp.a)
        r["res"].append({"n": "qgpv_input_qref_to_compute_lwa", "r": [int(x) for x in given_q], "tol": tol, "lwa": sp.lwa(w)})
        if ns == n // 2:
            k0 = dict(planet_radius=sp.a)
            k1 = dict(nlat_s=ns, n_points=ns, planet_radius=sp.a)
            cat = lambda t: np.concatenate([np.ravel(x) / max(np.abs(x).max(), 1e-300) for x in t])
            add("defaults", same=near(
                cat((wrapper.eqvlat_hemispheric(y, v, ar, **k0),) + tuple(wrapper.qgpv_eqlat_lwa(y, v, ar, d, **k0))),
                cat((wrapper.eqvlat_hemispheric(y, v, ar, **k1),) + tuple(wrapper.qgpv_eqlat_lwa(y, v, ar, d, **k1))), 1))
    return r


# ---------------------------------------------------------------- cases
def random_field(rng, big=False):
    nlat, nlon = int(rng.integers(3, 10)), int(rng.integers(2, 6))
    k = rng.integers(0, 5)
    hi = int(rng.integers(1, 12))
    if big:             # as many rows and columns as in practice
        nlat, nlon = [(int(rng.integers(30, 62)), int(rng.integers(3, 12))), (int(rng.integers(5, 14)), int(rng.integers(40, 121)))][int(rng.integers(2))]
        hi *= 3
    if k == 0:
        v = rng.integers(0, hi + 1, (nlat, nlon))
    elif k == 1:        # increasing with latitude plus eddies
        v = np.clip(np.arange(nlat)[:, None] + rng.integers(-2, 3, (nlat, nlon)), 0, 36 if big else 12)
    elif k == 2:        # zonally symmetric
        v = np.repeat(rng.integers(0, hi + 1, (nlat, 1)), nlon, axis=1)
    elif k == 3:        # odd about the equator
        v = np.arange(nlat)[:, None] - nlat // 2 + rng.integers(-1, 2, (nlat, nlon))
    else:
        v = np.full((nlat, nlon), hi)
        v.flat[rng.integers(0, v.size)] -= 1
    return v


def generate_for(prop):
    def generate(ctx):
        rng0 = np.random.default_rng([ctx.seed, int(prop[1:])])
        # (a) every field on a 3 x 2 sphere
        vals = (0, 1, 2) if ctx.quick else (0, 1, 3, 4)
        tiny = [np.array(t).reshape(3, 2) for t in itertools.product(vals, repeat=6)]
        if prop == "C22":
            tiny = [np.array(t).reshape(4, 2) for t in itertools.product((0, 1, 2) if not ctx.quick else (0, 2), repeat=8)]
        size = 90
        for b in range(0, len(tiny), size):
            part = tiny[b:b + size]
            ctx.case(f"tiny-{b}", f"all small fields {b}..{b + len(part) - 1}",
                     lambda part=part, b=b: batch(prop, np.random.default_rng([ctx.seed, b]), part, True),
                     replay={"first": b, "count": len(part)})
        # (b) random fields on random geometries
        nb = 14 if ctx.quick else 160
        for b in range(nb):
            s = [ctx.seed, 77, b]
            ctx.case(f"rand-{b}", f"random fields, batch {b}",
                     lambda s=s: batch(prop, np.random.default_rng(s), None, False), replay={"seed": s})
        for b in range(6 if ctx.quick else 60):
            s = [ctx.seed, 79, b]
            ctx.case(f"large-{b}", f"a large random field, {b}",
                     lambda s=s: batch(prop, np.random.default_rng(s), None, False, True), replay={"seed": s})
        # (c) cells at the poles have no area and hold the extremes: the other values cover the whole sphere
        for b in range((10 if ctx.quick else 60) if prop == "C20" else 0):
            s = [ctx.seed, 78, b]
            ctx.case(f"poles-{b}", f"extremes at the poles, batch {b}",
                     lambda s=s, b=b: poles(np.random.default_rng(s), 3 * (b % 3)), replay={"seed": s, "over": 3 * (b % 3)})
    return generate


def poles(rng, over=0):
    nlat, nlon = int(rng.integers(4, 10)), int(rng.integers(2, 7))
    ar = np.repeat(np.minimum(np.arange(nlat), np.arange(nlat)[::-1])[:, None], nlon, axis=1) * int(rng.integers(1, 4))
    if over:                                      # cells of some quadrature rule: they add up to more than the sphere
        ar = np.maximum(ar * 8, 1)
    M = int(ar.sum()) - over
    runs = []
    for _ in range(24):
        v = np.clip(np.arange(nlat)[:, None] + rng.integers(-2, 3, (nlat, nlon)), 0, 12)
        v[-1], v[0] = v.max() + 1, v.min() - rng.integers(0, 2)
        for _ in range(20):
            sp = Sphere(rng, v, int(rng.integers(2, 10)), M=M, ar=ar)
            if tie_safe(sp.v, sp.v.min(), sp.v.max(), sp.np_, sp.s, sp.off):
                runs.append(run20(sp))
                break
    return {"asn": asn(M, int(ar.sum())), "runs": runs}


def batch(prop, rng, fields, small, big=False):
    """Fields share one table of latitudes, so areas in a batch add up to the same M."""
    runs, M = [], None
    if not small:
        M = 480
    if big:
        fields, M = [random_field(rng, True)], None
    for v in (fields if fields is not None else [random_field(rng) for _ in range(45)]):
        for _ in range(20):
            npart = int(rng.integers(2, 50 if big else 10))
            sp = Sphere(rng, v, npart, M=M, small=small)
            subs = [sp.v]
            if prop == "C22":
                sp.off = 0.0
                sp.vort = sp.s * sp.v
                ns = sp.nlat // 2 if rng.random() < 0.5 else int(rng.integers(1, (sp.nlat + 1) // 2 + 1))
                sign = 1 if rng.random() < 0.3 else -1
                subs = [sp.v[:ns], sign * sp.v[::-1][:ns]]
            if all(tie_safe(x, x.min(), x.max(), npart, sp.s, sp.off) for x in subs):
                break
        else:
            continue
        if small or big:
            M = sp.M
        if sp.ar.sum() > M:
            continue
        if prop == "C20":
            runs.append(run20(sp))
            if rng.random() < 0.1:
                runs.append(run20_defaults(sp))
        elif prop == "C21":
            exact = rng.random() < 0.6
            hi = int(sp.v.max()) + 2
            Q = rng.integers(-1, hi, sp.nlat) * U if exact else rng.integers(-U, hi * U, sp.nlat)
            if rng.random() < 0.5:
                Q = np.sort(Q)
            runs.append(run21(sp, Q, exact))
            if rng.random() < 0.4:
                runs.append(run21_own(sp))
        else:
            runs.append(run22(sp, ns, sign, rng.integers(-U, (int(sp.v.max()) + 2) * U, sp.nlat)))
    return {"asn": asn(M), "runs": runs}

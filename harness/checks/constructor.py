"""Requests made of the real constructors for the Constructor specification (C11)."""
import json, os, re, warnings
import numpy as np
from vf import scen, rec

H, DZ = 7000.0, 2000.0


def prepare(work, seed, tier, log):
    from vf import tlc
    cfg = f"SPECIFICATION Spec\nCONSTANT MaxEdits = {2 if tier == 'quick' else 3}\nINVARIANT Emit\n"
    out, st, err = tlc.run("Constructor_Model", cfg, workers=1)
    rs = sorted({json.loads(line).split("|", 1)[1] for line in out.splitlines() if line.startswith('"REQ|')})
    if not rs:
        raise RuntimeError("no requests from TLC: " + out[-1000:] + err[-500:])
    log("requests from TLC:", len(rs))
    with open(os.path.join(work, "reqs.json"), "w") as f:
        f.write("[" + ",".join(rs) + "]")


def classes():
    from falwa.oopinterface import QGFieldNH18, QGFieldNHN22, QGField
    return [QGFieldNH18, QGFieldNHN22, QGField]


def latitudes(r):
    n = r["n"]
    y = np.linspace(-90.0, 90.0, n)
    c = n // 2
    if n % 2:
        y[c] = 0.0
        if r["zeros"] == 0:
            y = y + 0.5
        elif r["zeros"] == 2:
            y[c + 1] = 0.0
    elif r["zeros"] == 2:
        y[c - 1] = y[c] = 0.0
    return y[::-1].copy() if r["lat"] == "down" else y


def request(r, k):
    """make request r: what came of it"""
    rng = np.random.default_rng(k)
    z = np.arange(r["L"]) * DZ
    if not r["pre"]:
        z = np.linspace(0, r["top"] / 16.0 * DZ, r["L"]) if k % 2 else np.append(np.linspace(0, 0.6, r["L"] - 1), 1.0) * r["top"] / 16.0 * DZ
    p = 1000.0 * np.exp(-z / H)
    if r["lev"] == "up":
        p = p[::-1].copy()
    a = dict(xlon=np.linspace(0, 360, r["m"], endpoint=False), ylat=latitudes(r), plev=p,
             u_field=rng.normal(size=r["shape"]["u"]), v_field=rng.normal(size=r["shape"]["v"]),
             t_field=250.0 + rng.normal(size=r["shape"]["t"]))
    names = {"u": "u_field", "v": "v_field", "t": "t_field", "y": "ylat"}
    for x in r["masked"]:
        v = np.asarray(a[names[x]])
        m = [False, rng.random(v.shape) < 0.3][k % 3 > 0]
        a[names[x]] = np.ma.masked_array(v, mask=m, fill_value=1e20)
    sig = {n: rec.digest(np.asarray(v)) for n, v in a.items()}
    cls = classes()[k % 3]
    kw = dict(kmax=r["kmax"], dz=DZ, northern_hemisphere_results_only=bool(k % 2))
    if r["pre"]:
        kw["data_on_evenly_spaced_pseudoheight_grid"] = True
        if k % 2:
            kw.pop("dz"), kw.pop("kmax")
    if cls.__name__ == "QGFieldNHN22":
        kw["eq_boundary_index"] = 1
    got = dict(out="ok", warned=[], kmax=0, levels=0, dz=0)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            q = cls(**a, **kw)
            got.update(kmax=int(q.kmax), levels=len(q.height), dz=int(rec.q(q.dz / DZ, 1.0, 1024)))
        except Exception as e:
            got["out"] = "TypeError" if isinstance(e, TypeError) else "ValueError" if isinstance(e, ValueError) else type(e).__name__
    got["warned"] = sorted({x for m in w if issubclass(m.category, UserWarning) for x, nm in names.items()
                            if str(m.message).startswith(nm) and "mask" in str(m.message)})
    got["same"] = all(rec.digest(np.asarray(v)) == sig[n] for n, v in a.items())
    return got


def maxima(seed):
    rng = np.random.default_rng(seed)
    res = []
    for k in range(12):
        h, dz, L = rng.uniform(5000, 9000), rng.uniform(700, 3000), int(rng.integers(5, 12))
        levels = int(rng.integers(3, 14))
        # the top is a little above or below a multiple of dz, or anywhere
        top = (levels - 1) * dz * (1 + (1e-6, -1e-6, 1e-3, 0.4 / levels)[k % 4])
        if k % 4 == 1:
            levels -= 1
        p = 1000.0 * np.exp(-np.linspace(0, top, L) / h)
        y = np.linspace(-90, 90, 5)
        f = np.full((L, 5, 4), 250.0)
        cls = classes()[k % 3]

        def take(n):
            try:
                cls(np.arange(4) * 90.0, y, p, f, f, f, kmax=n, dz=dz, scale_height=h)
                return True, ""
            except ValueError as e:
                return False, str(e)
        ok, msg = take(500)
        said = [int(x) for x in re.findall(r"\d+", msg)][-1] if not ok else 500
        res.append(dict(said=said, accepted=[take(n)[0] for n in range(2, 20)], top=16 * (levels - 1)))
    return res


def masked(s, which):
    inp = scen.inputs(s)
    rng = np.random.default_rng(s["seed"])
    over = {}
    for x, nm in (("u", "u"), ("v", "v"), ("t", "t"), ("y", "ylat")):
        if x in which:
            v = inp[nm]
            over[nm] = np.ma.masked_array(v, mask=rng.random(v.shape) < 0.2, fill_value=-999.0)
    ids = rec.Intern()
    a, mo = [], []
    for i in (inp, dict(inp, **over)):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            q = scen.pipeline(s, i)
        o = {n: getattr(q, n) for n in scen.ALL}
        a.append({n: ids(v) for n, v in o.items()})
        mo = [n for n, v in o.items() if isinstance(v, np.ma.MaskedArray)]
    return dict(plain=a[0], masked=a[1], maskedout=mo)


def generate(ctx):
    reqs = json.load(open("reqs.json"))
    size = 400
    for b in range(0, len(reqs), size):
        part = reqs[b:b + size]
        ctx.case(f"req-{b}", f"requests {b}..{b + len(part) - 1}",
                 lambda part=part, b=b: dict(reqs=part, got=[request(r, b + i + ctx.seed) for i, r in enumerate(part)]), replay={"first": b})
    good = [r for r in reqs if len({tuple(x) for x in r["shape"].values()}) == 1 and r["shape"]["u"] == [r["L"], r["n"], r["m"]]]
    for par in (0, 1):
        some = [r for r in good if r["n"] % 2 == par]
        sizes = range(4 + par, 402 if ctx.quick else 1400, 2)
        part = [dict(r, n=n, shape={x: [r["L"], n, r["m"]] for x in "uvt"}) for n, r in zip(sizes, some * (1 + 700 // max(1, len(some))))]
        ctx.case(f"size-{par}", f"grids of {sizes[0]} to {sizes[-1]} latitudes",
                 lambda part=part: dict(reqs=part, got=[request(r, i + ctx.seed) for i, r in enumerate(part)]), replay={"parity": par})
    for k in range(4 if ctx.quick else 40):
        ctx.case(f"max-{k}", f"largest kmax, set {k}", lambda k=k: dict(maxima=maxima(100 * ctx.seed + k)), replay={"set": k})
    for i, (s, which) in enumerate([(dict(cls="NH18", nlat=11, nlon=6), "u"), (dict(cls="NHN22", nlat=12, nlon=6), "v"), (dict(cls="NH18", nlat=12, nlon=6), "t"),
                                    (dict(cls="NHN22", nlat=13, nlon=6, nh=True), "y"), (dict(cls="NH18", nlat=11, nlon=6, pre=True), "uvty"), (dict(cls="NH18", nlat=10, nlon=6), "uvty")]):
        s = dict(s, seed=ctx.seed + i)
        ctx.case(f"mask-{i}", f"masked {which}: {scen.name(s)}", lambda s=s, which=which: masked(s, which), replay={"scenario": s, "masked": which})

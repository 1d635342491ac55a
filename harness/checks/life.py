"""Call histories of QG field objects, replayed on the real classes (C01, C02, C15)."""
import copy, json, os, warnings
import numpy as np
from vf import scen, rec

NAMES = ["qgpv", "interpolated_u", "interpolated_v", "interpolated_theta", "static_stability", "qref", "uref", "ptref",
         "adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux",
         "divergence_eddy_momentum_flux", "meridional_heat_flux", "flux_vector_lambda_baro",
         "flux_vector_phi_baro", "lwa_baro", "u_baro", "ncforce_baro", "lwa",
         "ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term"]
FORCED = {"ncforce_baro"}
HI = 100000

CONFIGS = [
    dict(cls="NH18", raise_=False),
    dict(cls="NH18", raise_=True),
    dict(cls="NHN22"),
    dict(cls="NH18", nh=True, raise_=False),
    dict(cls="NH18", nlat=10, raise_=False),
    dict(cls="NHN22", nlat=14, nh=True),
    dict(cls="NH18", nlat=12, nh=True, raise_=True),
    dict(cls="NHN22", nlat=12, eqb=1),
    dict(cls="NHN22", nlat=13, nh=True, eqb=0),
    dict(cls="NH18", pre=True, raise_=False),
]


def full(s, seed=1):
    d = dict(nlat=11, nlon=6, kmax=6, nlev=8, eqb=2, seed=seed, kind="rough", npart=None)
    d.update(s)
    return d


def inputs(s):
    i = scen.inputs({**s, "kind": "rough"})
    if s.get("mirror"):
        i.update(u=i["u"][:, ::-1].copy(), v=-i["v"][:, ::-1], t=i["t"][:, ::-1].copy())
    return i


class Stalls(AssertionError):
    pass


def settle(s, north_first, inputs=inputs):
    """A state of the two hemispheres of which the north (or the south) needs fewer iterations, and what they need."""
    # northern-only: a limit between the two must be neither's exactly, where the result is there but not called converged
    s0, gap = s, 1 if s.get("nh") else 0
    for k in range(60):
        s = dict(s0, seed=s0["seed"] + 1000 * k, mirror=False)
        try:
            n = needs(s, inputs(s))
        except Stalls:
            continue                        # single precision does not reach the tolerance from here
        if s["cls"] == "NHN22":
            return s, n
        if abs(n[0] - n[1]) > gap:
            if (n[0] < n[1]) != north_first:
                s["mirror"] = True
                n = needs(s, inputs(s))
            if abs(n[0] - n[1]) > gap and (n[0] < n[1]) == north_first:
                return s, n
    raise AssertionError("no state whose hemispheres need different numbers of iterations")


def forcing(s, kind):
    if kind == "none":
        return None
    f = scen.full(s)
    rng = np.random.default_rng(5 + f["seed"])
    return rng.normal(size=(f["kmax"], f["nlat"], f["nlon"])) * 1e-10


def needs(s, inp):
    """Iterations after which each hemisphere's solve has converged, from northern-hemisphere-only runs."""
    if s["cls"] == "NHN22":
        return 0, 0
    res = []
    for mirror in (False, True):
        i = dict(inp)
        if mirror:
            i.update(u=inp["u"][:, ::-1].copy(), v=-inp["v"][:, ::-1], t=inp["t"][:, ::-1].copy())
        q = scen.make({**s, "nh": True, "raise_": False}, i)
        q.interpolate_fields(return_named_tuple=False)
        lo, hi = 3, 5000
        q.maxit = hi
        q.compute_reference_states(return_named_tuple=False)
        if q.nonconvergent_uref:
            raise Stalls("the solver does not converge in 5000 iterations")
        while hi - lo > 1:
            m = (lo + hi) // 2
            q.maxit = m
            q.compute_reference_states(return_named_tuple=False)
            lo, hi = (m, hi) if q.nonconvergent_uref else (lo, m)
        res.append(lo)
    return tuple(res)


class Obj:
    """A real object plus everything needed to record what it does."""
    def __init__(self, s, ids, inp=None):
        self.s, self.ids = s, ids
        self.inp = inp or inputs(s)
        self.q = scen.make(s, self.inp)
        self.forc = {k: forcing(s, k) for k in ("none", "a")}
        self.was = self.sig()
        self.left = []                      # objects copied from, and what they read then

    def sig(self):
        return [rec.digest(self.inp[k]) for k in sorted(self.inp)] + [rec.digest(self.forc[k]) for k in sorted(self.forc)]

    def kept(self):
        return all(self.vals(q) == v for q, v in self.left)

    def vals(self, q=None):
        v = []
        for n in NAMES:
            try:
                v.append(self.ids(getattr(q or self.q, n)))
            except ValueError:
                v.append(0)
            except Exception:
                v.append(-1)
        return v

    def call(self, op, m, f, tup=True):
        q, out, t = self.q, "ok", []
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                r = None
                if op == "copy":
                    self.left = (self.left + [(q, self.vals())])[-2:]
                    self.q = copy.deepcopy(q)
                elif op == "interp":
                    r = q.interpolate_fields(return_named_tuple=tup)
                elif op == "solve":
                    q.maxit = m
                    r = q.compute_reference_states(return_named_tuple=tup)
                elif op == "lwa":
                    r = q.compute_lwa_only()
                elif op == "flux":
                    r = q.compute_lwa_and_barotropic_fluxes(return_named_tuple=tup, ncforce=self.forc[f])
                else:
                    r = q.compute_layerwise_lwa_fluxes(ncforce=self.forc[f])
                if r is not None:
                    t = [self.ids(x) for x in r]
            except ValueError:
                out = "refused"
            except Exception as e:
                out = type(e).__name__
        return out, t, any(issubclass(x.category, UserWarning) for x in w)


def canonical(s, ids, needN, needS, inp):
    c = {}

    def grab(key, ops, over=None):
        o = Obj({**s, "raise_": False, **(over or {})}, ids, inp)
        for op, m, f in ops:
            o.call(op, m, f, tup=False)
        return dict(zip(NAMES, o.vals()))

    pick = lambda d, ns: {n: d[n] for n in ns}
    pre = [("interp", 0, "none"), ("solve", HI, "none")]
    i = grab("I", pre[:1])
    c["I"] = pick(i, NAMES[:5])
    lims = {"YY": HI, "NN": 3}
    if s["cls"] == "NH18" and not s.get("nh"):
        lims["YN" if needN < needS else "NY"] = limit(5, (needN, needS))
    if s.get("nh"):
        lims = {"YY": HI, "NY": 3}
    if s["cls"] == "NHN22":
        lims = {"YY": HI}
    for k, m in lims.items():
        c["R-" + k] = pick(grab(k, [pre[0], ("solve", m, "none")]), ["qref", "uref", "ptref"])
    for f in ("none", "a"):
        c["F-" + f] = pick(grab("F", pre + [("flux", 0, f)]), NAMES[8:20])
    c["L"] = pick(grab("L", pre + [("lwa", 0, "none")]), ["lwa_baro", "u_baro", "lwa"])
    c["Y-none"] = pick(grab("Y", pre + [("layer", 0, "none")]), ["lwa"] + NAMES[20:])
    return c


def cfg_rec(s, n):
    return {"cls": "NHN22" if s["cls"] == "NHN22" else "NH18", "nh": bool(s.get("nh", False)),
            "raise": bool(s.get("raise_", True)) if s["cls"] != "NHN22" else True, "needN": n[0], "needS": n[1]}


def limit(model_m, n):
    return {3: 3, 5: min(n) + 1, 99: HI}.get(model_m, 0)     # 5: one hemisphere converges, the other does not


def batch(ss, hists):
    """Replay histories (lists of [obj, op, m, f]) on objects with scenarios ss."""
    ids = rec.Intern()
    ss, ns = zip(*[settle(s, s["seed"] % 2 == 0) for s in ss])
    inps = [inputs(s) for s in ss]
    canon = [canonical(s, ids, *n, i) for s, n, i in zip(ss, ns, inps)]
    runs = []
    for h in hists:
        objs = [Obj(s, ids, {k: np.array(v) for k, v in i.items()}) for s, i in zip(ss, inps)]
        ev = []
        h = [(x, op, m, f) for x, op, m, f in h]
        h += [(x, *t) for x in range(1, len(ss) + 1) for t in (("interp", 0, "none"), ("solve", 99, "none"), ("flux", 0, "none"))]
        for j, (x, op, m, f) in enumerate(h):
            o = objs[x - 1]
            m = limit(m, ns[x - 1]) if op == "solve" else 0
            out, tup, warn = o.call(op, m, f)
            ev.append({"x": x, "op": op, "m": m, "f": f, "out": out, "warn": warn, "flag": bool(o.q.nonconvergent_uref),
                       "tup": tup, "vals": [p.vals() for p in objs], "inp": all(p.sig() == p.was for p in objs), "kept": all(p.kept() for p in objs)})
        runs.append(ev)
    return {"names": NAMES, "cfgs": [cfg_rec(s, n) for s, n in zip(ss, ns)], "canon": canon, "runs": runs,
            "longest": max(len(r) for r in runs)}


PRE = [[], [[1, "interp", 0, "none"]], [[1, "interp", 0, "none"], [1, "solve", 99, "none"]]]


def generate(ctx):
    H = json.load(open("hist.json"))
    rng = np.random.default_rng(ctx.seed)
    for ci, s in enumerate(CONFIGS):
        s = full(s, ctx.seed + ci)
        # all histories of three calls after each prefix, sampled in the quick tier
        pool = [p + h for p in PRE for h in H["short"]]
        pool += [h for h in H["four"]] if not ctx.quick else []
        pool = [h for h in pool if s["cls"] != "NHN22" or all(e[2] != 5 for e in h)]
        if ctx.quick:
            pool = [pool[i] for i in rng.permutation(len(pool))[:260]]
        w = [PRE[j % 3] + h for j, h in enumerate(H["walk"])]
        w = [w[i] for i in rng.permutation(len(w))[: 14 if ctx.quick else 200]]
        hs = pool + w
        size = 70 if ctx.quick else 250
        for b in range(0, len(hs), size):
            part = hs[b:b + size]
            ctx.case(f"{ci}-{b}", f"histories {b}..{b + len(part) - 1} on {scen.name(CONFIGS[ci])}",
                     lambda s=s, part=part: batch([s], part), replay={"scenario": s, "histories": part[:200]})
    pairs = [(0, 0), (0, 2), (2, 2), (3, 4), (5, 2), (1, 6), (7, 9), (0, 9)]
    for pi, (a, b) in enumerate(pairs):
        ss = [full(CONFIGS[a], 31), full(CONFIGS[b], 47)]
        hs = H["two"]
        n = 7 if ctx.quick else 60
        part = [hs[i] for i in rng.permutation(len(hs))[:n]]
        # start most of them with both objects ready
        both = [[x, *t] for x in (1, 2) for t in (("interp", 0, "none"), ("solve", 99, "none"))]
        part = [both + h if i % 4 else h for i, h in enumerate(part)]
        ctx.case(f"two-{pi}", f"interleaved calls on two objects {scen.name(CONFIGS[a])} / {scen.name(CONFIGS[b])}",
                 lambda ss=ss, part=part: batch(ss, part), replay={"scenarios": ss, "histories": part})

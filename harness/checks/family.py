"""Call histories of QGDatasets, replayed on the real class, for the DatasetLife specification (C28)."""
import copy, json, os, warnings
import numpy as np
from vf import rec, scen
from checks import life

STAGE = dict(interp="interpolate_fields", solve="compute_reference_states", lwa="compute_lwa_only",
             flux="compute_lwa_and_barotropic_fluxes", layer="compute_layerwise_lwa_fluxes")
NAMES = life.NAMES


def prepare(work, seed, tier, log):
    """Histories come from the specification"""
    from vf import tlc
    base = ('SPECIFICATION GenSpec\nINVARIANT Emit\nCONSTANTS\n  Needs = {{4}}\n  Limits = {{3, 5, 99}}\n'
            '  Forcings = {{"none", "a"}}\n  Slices = {{1, 2}}\n  MaxLen = {n}\n')
    res = {}
    jobs = {"short": (base.format(n=2), ()),
            "walk": (base.format(n=10), ("-simulate", f"num={80 if tier == 'quick' else 800}", "-depth", "11", "-seed", str(seed)))}
    for k, (cfg, args) in jobs.items():
        out, st, err = tlc.run("DatasetLife_Model", cfg, args=args)
        res[k] = [json.loads(json.loads(line).split("|", 1)[1]) for line in out.splitlines() if line.startswith('"HIST|')]
        if not res[k]:
            raise RuntimeError(f"no histories from TLC ({k}): {out[-1500:]} {err[-500:]}")
    log("histories from TLC:", {k: len(v) for k, v in res.items()})
    with open(os.path.join(work, "hist.json"), "w") as f:
        json.dump(res, f)


class Family:
    """A real QGDataset and what is needed to record what it does"""
    def __init__(self, s, inps, extra, labels, ids):
        import xarray as xr
        from falwa.xarrayinterface import QGDataset
        self.ids, g = ids, inps[0]
        dims, size = [n for n, _ in extra], [k for _, k in extra]
        stack = lambda a: np.array(a).reshape(*size, *np.asarray(a[0]).shape)
        co = {**labels, "plev": g["plev"], "ylat": g["ylat"], "xlon": g["xlon"]}
        self.ds = xr.Dataset({k: ([*dims, "plev", "ylat", "xlon"], stack([i[k] for i in inps])) for k in "uvt"}, co)
        self.qd = QGDataset(self.ds, qgfield=scen.cls_of(s), qgfield_kwargs=scen.kwargs(s))
        f = self.qd.fields[0]
        self.forc = {"none": None, "a": xr.DataArray(stack([life.forcing({**s, "seed": i["seed"]}, "a") for i in inps]), dims=[*dims, "height", "ylat", "xlon"],
                                                    coords={**labels, "height": f.height, "ylat": g["ylat"], "xlon": g["xlon"]})}
        self.where = [{n: labels[n][i] for n, i in zip(dims, np.unravel_index(k, size))} for k in range(len(inps))]
        self.was = self.sig()
        self.out = []               # what was handed out, and what it held then
        self.left = []              # datasets copied from, and what they read then

    def sig(self):
        return [rec.digest(self.ds[k].values) for k in "uvt"] + [rec.digest(self.forc["a"].values)]

    def cells(self, da):
        return [self.ids(da.sel(w).values) for w in self.where]

    def read(self, n, qd=None):
        """what the dataset reads as, per slice; 0: ValueError, -1: another exception"""
        qd = qd or self.qd
        try:
            a = getattr(qd, n)
            if isinstance(a, tuple):                 # static stability of the two hemispheres
                return [self.ids(tuple(x.sel(w).values for x in a)) for w in self.where]
            return self.cells(a)
        except ValueError:
            return [0] * len(self.where)
        except Exception:
            return [-1] * len(self.where)

    def vals(self, qd=None):
        return [self.read(n, qd) for n in NAMES]

    def own(self):
        r = []
        for f in self.qd.fields:
            v = []
            for n in NAMES:
                try:
                    v.append(self.ids(getattr(f, n)))
                except ValueError:
                    v.append(0)
                except Exception:
                    v.append(-1)
            r.append(v)
        return r

    def call(self, op, m, f, ask=True):
        qd, out, t = self.qd, "ok", {}
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                if op == "copy":
                    self.left = (self.left + [(qd, self.vals())])[-2:]
                    self.qd = copy.deepcopy(qd)
                else:
                    if op == "solve":
                        for q, x in zip(qd.fields, m):
                            q.maxit = x
                    kw = {"ncforce": self.forc[f]} if op in ("flux", "layer") and self.forc[f] is not None else {}
                    r = getattr(qd, STAGE[op])(**({} if op == "lwa" or op == "layer" else {"return_dataset": ask}), **kw)
                    if r is not None:
                        t = {str(n): self.cells(da) for n, da in r.data_vars.items() if not str(n).startswith("static_stability")}
                        self.out = (self.out + [(r, {k: rec.digest(r[k].values) for k in r.variables})])[-6:]
            except ValueError:
                out = "refused"
            except Exception as e:
                out = type(e).__name__
        return out, t, any(issubclass(x.category, UserWarning) for x in w)

    def kept(self):
        return all(rec.digest(r[k].values) == d for r, was in self.out for k, d in was.items()) and all(self.vals(q) == v for q, v in self.left)


def mix(rng, n):
    q = rng.integers(0, 3, size=n)
    q[rng.integers(n)] = 2 if n > 1 else 1          # one converges, unless it is alone
    return q


def batch(s, extra, hists, seed):
    ids = rec.Intern()
    n = int(np.prod([k for _, k in extra], dtype=int))
    g = life.inputs(s)
    grid = lambda si: {**life.inputs(si), "xlon": g["xlon"], "ylat": g["ylat"], "plev": g["plev"]}        # one grid for all
    ss, inps, ns = [], [], []
    for i in range(n):
        si, need = life.settle(dict(s, seed=s["seed"] + 77 * i, amp=(0.8, 1.4, 1.0, 1.2)[i % 4]), i % 2 == 0, grid)
        ss.append(si)
        inps.append(grid(si))
        ns.append(need)
    rng = np.random.default_rng([seed, s["seed"]])
    labels = {d: np.array([7, 3, 11, 5])[:k] for d, k in extra}
    # canonical runs are those of fields of their own
    canon = [life.canonical(si, ids, *nd, x) for si, nd, x in zip(ss, ns, inps)]
    for x, si in zip(inps, ss):
        x["seed"] = si["seed"]
    runs = []
    for j, h in enumerate(hists):
        fam = Family(s, inps, extra, labels, ids)
        ev = []
        for i, (op, m, f) in enumerate([tuple(e) for e in h] + [("interp", 0, "none"), ("solve", 99, "none"), ("flux", 0, "none")]):
            # limits of the iteration: enough for none, some, or all of the slices
            each = [(3, 5, 99)[q] for q in mix(rng, n)] if m == 5 else [m] * n
            m = [life.limit(x, nd) if op == "solve" else 0 for x, nd in zip(each, ns)]
            ask = (i + j) % 3 > 0
            out, t, warn = fam.call(op, m, f, ask)
            ev.append({"op": op, "m": m, "f": f, "out": out, "warn": warn, "flag": [bool(q.nonconvergent_uref) for q in fam.qd.fields],
                       "ret": [{"v": k, "c": c} for k, c in t.items()], "vals": fam.vals(), "own": fam.own(), "inp": fam.sig() == fam.was, "kept": fam.kept()})
        runs.append(ev)
    return {"names": NAMES, "cfgs": [life.cfg_rec(si, nd) for si, nd in zip(ss, ns)], "canon": canon, "runs": runs,
            "longest": max(len(r) for r in runs)}


CONFIGS = [
    (dict(cls="NH18", raise_=False), [("time", 3)]),
    (dict(cls="NH18", raise_=True), [("member", 2), ("time", 2)]),
    (dict(cls="NHN22"), [("time", 2)]),
    (dict(cls="NH18", nh=True, raise_=False, nlat=10), [("time", 2), ("member", 1)]),
    (dict(cls="NHN22", nlat=14, nh=True), [("lead", 3)]),
    (dict(cls="NH18", nlat=12, nh=True, raise_=True), [("time", 3)]),
    (dict(cls="NH18", raise_=False, pre=True), []),
]
READY = [["interp", 0, "none"], ["solve", 99, "none"]]
MIXED = [["interp", 0, "none"], ["solve", 5, "none"]]


def generate(ctx):
    H = json.load(open("hist.json"))
    rng = np.random.default_rng(ctx.seed)
    for ci, (s, extra) in enumerate(CONFIGS):
        s = life.full(s, ctx.seed + 10 * ci)
        pool = [p + h for p in ([], MIXED, READY, READY + [["flux", 0, "a"]]) for h in H["short"]]
        pool = [pool[i] for i in rng.permutation(len(pool))[: 44 if ctx.quick else len(pool)]]
        w = [([], READY, MIXED)[i % 3] + h for i, h in enumerate(H["walk"])]
        again = [READY[:1] + [["solve", a, "none"], ["solve", b, "none"], [op, 0, "none"]] for a in (3, 5, 99) for b in (3, 5, 99) for op in ("flux", "lwa")]
        hs = again + pool + [w[i] for i in rng.permutation(len(w))[: 12 if ctx.quick else 150]]
        if s["cls"] == "NHN22":
            hs = [h for h in hs if all(e[1] != 5 for e in h)]
        for b in range(0, len(hs), 36):
            part = hs[b:b + 36]
            ctx.case(f"family-{ci}-{b}", f"histories {b}..{b + len(part) - 1} on a dataset over {extra} of {scen.name(CONFIGS[ci][0])}",
                     lambda s=s, extra=extra, part=part: batch(s, extra, part, ctx.seed),
                     replay={"scenario": s, "extra": extra, "histories": part})

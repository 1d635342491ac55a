"""check: main.py <property>.  Exit 0 = held, 1 = VIOLATION, anything else = machinery error."""
import importlib, json, os, shutil, signal, subprocess, sys, tempfile, time

from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, "/opt/venv/lib/python3.12/site-packages"]
from vf import build, tlc  # noqa: E402

PROP = sys.argv[1]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if len(sys.argv) > 2:
    TIER = sys.argv[2]
T0 = time.time()
EVD = os.path.join(VERIF, "evidence")
os.makedirs(os.path.join(EVD, "replay"), exist_ok=True)


def log(*a):
    print(f"[{PROP} {time.time() - T0:6.1f}s]", *a, flush=True)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return [k for k in json.load(open(p))["findings"] if k["property"] == PROP] if os.path.exists(p) else []


def workers(lib, src, work, n):
    env = dict(build.ENVV)
    env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
    ps = []
    for i in range(n):
        out = os.path.join(work, f"w{i}.ndjson")
        err = open(out + ".err", "w")
        ps.append((out, subprocess.Popen(
            [f"{build.VENV}/bin/python", "-S", os.path.join(HERE, "worker.py"), PROP, str(SEED), TIER, str(i), str(n),
             out, lib, src], env=env, stderr=err, stdin=subprocess.DEVNULL, cwd=work)))
    lim = 600 if TIER == "quick" else 3000
    res, t0 = [], time.time()
    for out, p in ps:
        try:
            rc = p.wait(timeout=max(1, lim - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        res.append((out, rc))
    return res


def main():
    chk = importlib.import_module("checks." + PROP.lower() + "_spec") if os.path.exists(
        os.path.join(HERE, "checks", PROP.lower() + "_spec.py")) else importlib.import_module("checks.specs").SPECS[PROP]
    get = (lambda k, d=None: chk.get(k, d)) if isinstance(chk, dict) else (lambda k, d=None: getattr(chk, k, d))
    work = tempfile.mkdtemp(prefix=f"vf-{PROP}-")
    cleanup = lambda: None
    try:
        # ---- the abstract models run while the code is built and exercised ----------
        pool = ThreadPoolExecutor(2)
        running = [(m, pool.submit(tlc.model, m[0], m[1], workers=3, env={"VF_TIER": TIER}))
                   for m in get("models", []) if len(m) < 3 or TIER in m[2]]
        # ---- the code -------------------------------------------------------------
        log("building falwa from", build.REPO)
        lib, src, cleanup = build.build()
        pre = get("prepare")
        if pre:
            pre(work, SEED, TIER, log)
        n = get("shards", 6)
        res = workers(lib, src, work, n)
        cases, info, metas, viol = [], {}, [], []
        for out, rc in res:
            if os.path.exists(out):
                for line in open(out):
                    if line.endswith("\n"):
                        d = json.loads(line)
                        cases.append(d["case"])
                        info[d["case"]["id"]] = d
            if rc == 0 and os.path.exists(out + ".done"):
                metas.append(json.load(open(out + ".done")))
                continue
            cur = open(out + ".cur").read() if os.path.exists(out + ".cur") else "start"
            errt = open(out + ".err").read()[-3000:]
            if rc == 7:
                raise RuntimeError(f"worker failed (rc={rc}) at {cur}:\n{errt}")
            viol.append({"id": "process", "desc": cur, "clauses": [
                {"n": f"the code under test ends normally (ended with {rc})", "ex": errt[-600:]}]})
        ids = [c["id"] for c in cases]
        assert len(set(ids)) == len(ids), "duplicate case ids"
        log(len(cases), "cases recorded")
        if not cases and not viol:
            raise RuntimeError("no cases")
        mstats = []
        for m, fut in running:
            st = fut.result()
            mstats.append({"module": m[0], "cfg": m[1], "states": st["states"], "distinct": st["distinct"],
                           "depth": st["depth"], "wall": st["wall"]})
            log("model", m[0], m[1], st["states"], "states", st["distinct"], "distinct", f"{st['wall']}s")
        # ---- verdicts ---------------------------------------------------------------
        groups = {}
        for c in cases:
            groups.setdefault(c.pop("_judge", get("judge")), []).append(c)
        verdicts, jst = [], {"states": 0, "distinct": 0}
        for jm, cs in groups.items():
            k = min(get("judge_parts", 6), len(cs))
            sizes = sorted(((len(json.dumps(c)), i) for i, c in enumerate(cs)), reverse=True)
            parts, load = [[] for _ in range(k)], [0] * k
            for sz, i in sizes:
                j = load.index(min(load))
                parts[j].append(cs[i])
                load[j] += sz
            files = []
            for j, p in enumerate(parts):
                fn = os.path.join(work, f"{jm}-{j}.ndjson")
                with open(fn, "w") as f:
                    for c in p:
                        f.write(json.dumps(c, separators=(",", ":")) + "\n")
                files.append(fn)
            v, st = tlc.judge(jm, files, len(cs), env={"VF_PROP": PROP, "VF_TIER": TIER})
            verdicts += v
            jst["states"] += st["states"]
            jst["distinct"] += st["distinct"]
        log(len(verdicts), "verdicts")
        kf, seen_kf = known_findings(), set()
        for v in verdicts:
            bad = []
            for f in v["fails"]:
                hit = [k for k in kf if k["clause"] == f["n"] and k["case"] in (v["id"], info[v["id"]]["desc"])]
                if hit:
                    seen_kf.add(hit[0]["what"])
                else:
                    bad.append(f)
            if bad:
                viol.append({"id": v["id"], "desc": info[v["id"]]["desc"], "clauses": bad})
        for what in sorted(seen_kf):
            print(f"KNOWN-FINDING: property={PROP} {what}")
        # ---- evidence -----------------------------------------------------------------
        samples = []
        for v in verdicts[:: max(1, len(verdicts) // 5)][:6]:
            samples.append({"case": info[v["id"]]["desc"][:400], "clauses": v["n"], "points": v["pts"],
                            "failed": [f["n"] for f in v["fails"]]})
        for m in metas:
            samples += m.get("samples", [])[:2]
        ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": "model_checking",
              "coverage": {"states": sum(m["states"] for m in mstats) + jst["states"],
                           "transitions": sum(max(0, m["states"] - 1) for m in mstats) + len(verdicts),
                           "traces_validated_against_impl": len(verdicts),
                           "distinct_model_states": sum(m["distinct"] for m in mstats),
                           "clause_evaluations": sum(v["n"] for v in verdicts),
                           "points_compared": sum(v["pts"] for v in verdicts),
                           "models": mstats, "judges": sorted(groups),
                           "counts": {k: sum(m.get("counts", {}).get(k, 0) for m in metas)
                                      for k in {k for m in metas for k in m.get("counts", {})}},
                           "samples": samples[:12]},
              "assumptions": get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len(viol)}
        txt = json.dumps(ev, indent=1, default=str)
        assert len(txt) < 64000
        with open(os.path.join(EVD, f"{PROP}.json"), "w") as f:
            f.write(txt)
        if viol:
            rp = os.path.join(EVD, "replay", f"{PROP}-{TIER}.json")
            with open(rp, "w") as f:
                json.dump({"property": PROP, "seed": SEED, "tier": TIER, "violations": [
                    {**v, "replay": (info.get(v["id"]) or {}).get("replay")} for v in viol[:40]]}, f, indent=1)
            for v in viol[:12]:
                for c in v["clauses"][:4]:
                    log(f"FAILED {c['n']} at {c.get('ex')} ({c.get('bad', '?')}/{c.get('of', '?')}) in [{v['id']}] {v['desc'][:200]}")
            print(f"VIOLATION property={PROP} replay={rp}", flush=True)
            return 1
        log("held:", len(verdicts), "cases,", sum(v["pts"] for v in verdicts), "points")
        return 0
    finally:
        cleanup()
        if os.environ.get("VF_KEEP"):
            log("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except build.BuildError as e:
        print(f"cannot build falwa from {build.REPO}: {e}")
        rc = 2
    sys.exit(rc)

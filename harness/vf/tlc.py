"""Running TLC: exhaustive models and judges of recorded cases."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPECS = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "specs"))


class TLCError(RuntimeError):
    pass


def run(module, cfg, env=None, workers=1, args=(), timeout=800, heap="2g", stack="64m"):
    """Run TLC on specs/<module>.tla with cfg text or file; returns (stdout, dict of statistics)."""
    meta = tempfile.mkdtemp(prefix="vf-tlc-")
    try:
        if cfg.endswith(".cfg"):
            cfgfile = os.path.join(SPECS, cfg)
        else:
            cfgfile = os.path.join(meta, "run.cfg")
            with open(cfgfile, "w") as f:
                f.write(cfg)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}", f"-Xss{stack}",
               "-cp", JARS, "tlc2.TLC", "-metadir", os.path.join(meta, "states"), "-nowarning", "-noGenerateSpecTE",
               "-workers", str(workers), "-deadlock", "-config", cfgfile, *args, f"{module}.tla"]
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPECS, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise TLCError(f"TLC on {module} exceeded {timeout} s") from ex
        out = r.stdout
        st = {"rc": r.returncode, "wall": round(time.time() - t0, 2), "states": 0, "distinct": 0, "ok": False}
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            st["states"], st["distinct"] = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"(?:The number of states generated: |states checked.*?)(\d+)", out)
            if m:
                st["states"] = int(m[-1])
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        st["depth"] = int(m.group(1)) if m else 0
        st["ok"] = "Model checking completed. No error has been found." in out
        st["violated"] = re.findall(r"(?:Invariant|property|Action property) (\w+) (?:is|was) violated", out)
        return out, st, r.stderr
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def model(module, cfg, workers=4, timeout=800, **kw):
    """Exhaustively check an abstract model. Any failure is an error of the machinery (the model
    does not depend on the code)."""
    out, st, err = run(module, cfg, workers=workers, timeout=timeout, heap="6g", **kw)
    if not st["ok"]:
        raise TLCError(f"model {module} with {cfg}:\n{out[-4000:]}\n{err[-2000:]}")
    return st


VER = re.compile(r'^"?VERDICT\|(.*?)"?$')


def _verdicts(out):
    res = []
    for line in out.splitlines():
        m = VER.match(line.strip())
        if m:
            s = m.group(1)
            if line.strip().startswith('"'):
                s = json.loads('"' + s + '"')
            res.append(json.loads(s))
    return res


def judge(module, files, ncases, cfg=None, env=None, timeout=800, heap="3g"):
    """Judge recorded cases: one TLC per file, in parallel.  Exactly one verdict per case."""
    cfg = cfg or "SPECIFICATION Spec\n"

    def one(f):
        """Values too large for the specification's arithmetic are themselves a finding about the case."""
        extra, total = [], {"distinct": 0, "states": 0}
        while True:
            out, st, err = run(module, cfg, env={**(env or {}), "VF_CASES": f}, timeout=timeout, heap=heap)
            total = {k: total[k] + st[k] for k in total}
            m = re.search(r"Overflow when computing[^\n]*", out)
            if st["ok"] or not m:
                return "\n".join(extra) + "\n" + out, {**st, **total}, err
            done = [v["id"] for v in _verdicts(out)]
            lines = [x for x in open(f) if json.loads(x)["id"] not in done]
            bad = {"id": json.loads(lines[0])["id"], "n": 1, "pts": 1, "fails": [
                {"n": "the recorded values are within the range of the specification", "of": 1, "bad": 1, "ex": m.group(0)}]}
            extra += [x for x in out.splitlines() if VER.match(x.strip())] + ["VERDICT|" + json.dumps(bad)]
            if len(lines) == 1:
                return "\n".join(extra), {**st, **total, "ok": True}, err
            f = f + "r"
            with open(f, "w") as g:
                g.writelines(lines[1:])

    verdicts, states, gen = [], 0, 0
    with ThreadPoolExecutor(max_workers=max(1, len(files))) as ex:
        for f, (out, st, err) in zip(files, ex.map(one, files)):
            if not st["ok"]:
                raise TLCError(f"judge {module} on {f}:\n{out[-6000:]}\n{err[-2000:]}")
            verdicts += _verdicts(out)
            states += st["distinct"]
            gen += st["states"]
    ids = [v["id"] for v in verdicts]
    if len(set(ids)) != ncases:
        raise TLCError(f"judge {module}: {len(set(ids))} verdicts for {ncases} cases")
    seen, uniq = set(), []
    for v in verdicts:
        if v["id"] not in seen:
            seen.add(v["id"])
            uniq.append(v)
    return uniq, {"states": gen, "distinct": states}

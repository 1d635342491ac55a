"""Histories for the life-cycle checks, generated by TLC from Life_Model."""
import json, os


def prepare(work, seed, tier, log):
    """Histories come from the specification: TLC enumerates the short ones and walks the long ones."""
    from vf import tlc
    base = ('SPECIFICATION GenSpec\nINVARIANT Emit\nCONSTANTS\n  Needs = {{4}}\n  Limits = {{3, 5, 99}}\n'
            '  Forcings = {{"none", "a"}}\n  Objs = {{{o}}}\n  MaxLen = {n}\n')
    res = {}
    jobs = {"short": (base.format(o="1", n=3), ()),
            "four": (base.format(o="1", n=4), ()),
            "walk": (base.format(o="1", n=14), ("-simulate", f"num={40 if tier == 'quick' else 400}", "-depth", "15", "-seed", str(seed))),
            "two": (base.format(o="1, 2", n=9), ("-simulate", f"num={60 if tier == 'quick' else 600}", "-depth", "10", "-seed", str(seed + 1)))}
    for k, (cfg, args) in jobs.items():
        out, st, err = tlc.run("Life_Model", cfg, args=args)
        hs = [json.loads(json.loads(line).split("|", 1)[1]) for line in out.splitlines() if line.startswith('"HIST|')]
        if not hs:
            raise RuntimeError(f"no histories from TLC ({k}): {out[-1500:]} {err[-500:]}")
        res[k] = hs
    log("histories from TLC:", {k: len(v) for k, v in res.items()})
    with open(os.path.join(work, "hist.json"), "w") as f:
        json.dump(res, f)

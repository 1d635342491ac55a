"""Runs the real code and records cases.  Started by main.py in a child process, one per shard."""
import importlib, json, os, sys, traceback, warnings

prop, seed, tier, shard, nshards, out, lib, src = sys.argv[1:9]
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [lib, HERE, "/opt/venv/lib/python3.12/site-packages"]
fd = os.open(os.devnull, os.O_WRONLY)
os.dup2(fd, 1)                                  # Fortran and Python chatter of the code under test
import numpy as np  # noqa: E402
warnings.simplefilter("ignore")
np.seterr(all="ignore")


class Ctx:
    def __init__(self):
        self.seed, self.tier, self.shard, self.nshards = int(seed), tier, int(shard), int(nshards)
        self.src, self.lib = src, lib
        self.quick = tier == "quick"
        self.n = 0
        self.f = open(out, "w")
        self.meta = {"samples": [], "counts": {}}
        self._k = 0

    def mine(self):
        """Deals work out to shards; call once per unit of work."""
        self._k += 1
        return (self._k - 1) % self.nshards == self.shard

    def mark(self, label):
        with open(out + ".cur", "w") as g:
            g.write(label)

    def emit(self, cid, desc, rec, replay=None):
        rec = dict(rec)
        rec["id"] = f"{cid}"
        self.f.write(json.dumps({"case": rec, "desc": desc, "replay": replay}) + "\n")
        self.f.flush()
        self.n += 1

    def case(self, cid, desc, fn, replay=None):
        """fn() runs the code and returns the record; an exception is itself an observation."""
        if not self.mine():
            return
        self.mark(desc)
        try:
            rec = fn()
        except Exception as e:
            tb = traceback.format_exc().strip().splitlines()
            rec = {"died": f"{type(e).__name__}: {str(e)[:200]}"}
            replay = {"desc": desc, "traceback": tb[-8:], **(replay or {})}
        self.emit(cid, desc, rec, replay)


ctx = Ctx()
ctx.mark("import falwa")
import falwa  # noqa: E402
if not os.path.realpath(falwa.__file__).startswith(os.path.realpath(lib)):
    print("wrong falwa: " + falwa.__file__, file=sys.stderr)
    sys.exit(7)
mod = importlib.import_module("checks." + prop.lower())
mod.generate(ctx)
ctx.f.close()
with open(out + ".done", "w") as g:
    json.dump(ctx.meta, g)

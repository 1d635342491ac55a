"""Build falwa from /repo's *current* working tree into a private scratch directory.

Nothing is written in /repo and the editable install in /opt/venv is not used:
the sources are copied, compiled by content (a fresh meson build), installed into
<scratch>/inst and imported from there.
"""
import hashlib, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VF_REPO", "/repo")
VENV = "/opt/venv"
ENVV = dict(os.environ)
ENVV.update({
    "PATH": f"{VENV}/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "CC": "/usr/bin/gcc", "FC": "/usr/bin/gfortran",
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONWARNINGS": "ignore::SyntaxWarning",
    "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
})


class BuildError(RuntimeError):
    pass


def tree_hash():
    h = hashlib.sha256()
    for root in ("src", "meson.build", "pyproject.toml"):
        p = os.path.join(REPO, root)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs
            if not d.endswith("__pycache__") and not f.endswith((".pyc", ".so")))
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def _do_build(scratch):
    src = os.path.join(scratch, "src_copy")
    os.makedirs(src)
    for n in ("meson.build", "pyproject.toml", "readme.md", "LICENSE.txt"):
        p = os.path.join(REPO, n)
        if os.path.exists(p):
            shutil.copyfile(p, os.path.join(src, n))
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(src, "src"),
                    ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "*.so"))
    bld, inst = os.path.join(scratch, "bld"), os.path.join(scratch, "inst")
    env = dict(ENVV)
    for cmd in ([f"{VENV}/bin/meson", "setup", bld, src, "--prefix", inst, "-Dbuildtype=release",
                 f"-Dpython.platlibdir={inst}/lib", f"-Dpython.purelibdir={inst}/lib"],
                [f"{VENV}/bin/meson", "install", "-C", bld, "--quiet"]):
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, cwd=scratch)
        if r.returncode:
            raise BuildError(f"{' '.join(cmd)} failed:\n{r.stdout[-3000:]}\n{r.stderr[-3000:]}")
    shutil.rmtree(bld)
    return os.path.join(inst, "lib")


def build():
    """Return (libdir, srcdir, cleanup)."""
    cache = os.environ.get("VF_DEV_CACHE")          # development only, never set by MANIFEST commands
    if cache:
        d = os.path.join(cache, tree_hash())
        if not os.path.isdir(d):
            tmp = tempfile.mkdtemp(prefix="falwa-", dir=cache)
            _do_build(tmp)
            try:
                os.rename(tmp, d)
            except OSError:
                shutil.rmtree(tmp)
        return os.path.join(d, "inst", "lib"), os.path.join(d, "src_copy", "src", "falwa"), lambda: None
    scratch = tempfile.mkdtemp(prefix="vf-falwa-")
    try:
        lib = _do_build(scratch)
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise
    return lib, os.path.join(scratch, "src_copy", "src", "falwa"), \
        lambda: shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    print(build()[0])

"""Modules of the source tree that the build does not install."""
import importlib.util, os

_mods = {}


def loose(name, src):
    if name not in _mods:
        p = next(q for q in (os.path.join(src, *d, name + ".py") for d in ([], ["falwa"], ["src", "falwa"])) if os.path.exists(q))
        spec = importlib.util.spec_from_file_location(name, p)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        _mods[name] = mod
    return _mods[name]

"""The extensions with allocations that can be made to fail."""

import ctypes
import importlib.machinery
import importlib.util
import json
import os

_mods = {}


def load():
    """{name: (module, control block)}; see oomshim.c"""
    if _mods:
        return _mods
    for name, path in json.loads(os.environ["VF_EXT_OOM"]).items():
        loader = importlib.machinery.ExtensionFileLoader(name, path)
        spec = importlib.util.spec_from_file_location(name, path, loader=loader)
        mod = importlib.util.module_from_spec(spec)
        loader.exec_module(mod)
        ctl = (ctypes.c_long * 4).in_dll(ctypes.CDLL(path), "VF_OOM_CTL")
        _mods[name.split(".")[-1]] = (mod, ctl)
    return _mods

"""Import clevercsv from the repository with freshly compiled extensions."""

import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import sys


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, mapping):
        self.mapping = mapping

    def find_spec(self, fullname, path=None, target=None):
        so = self.mapping.get(fullname)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(fullname, so)
        return importlib.util.spec_from_file_location(
            fullname, so, loader=loader
        )


def install(repo=None, mapping=None):
    repo = repo or os.environ.get("VF_REPO", "/repo")
    if mapping is None:
        mapping = json.loads(os.environ["VF_EXT"])
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder(mapping))
    if repo in sys.path:
        sys.path.remove(repo)
    sys.path.insert(0, repo)
    import clevercsv

    here = os.path.realpath(os.path.dirname(clevercsv.__file__))
    want = os.path.realpath(os.path.join(repo, "clevercsv"))
    if here != want:
        raise RuntimeError("clevercsv imported from %s" % here)
    return clevercsv

"""Compile the C extensions of the code under test into a scratch directory.

Nothing that lies in the repository is trusted: the extension modules are
compiled from the working tree on every run, with the sources that
pyproject.toml names.
"""

import glob
import os
import subprocess
import sysconfig
import tomllib

FALLBACK = {
    "clevercsv.cparser": ["src/cparser.c"],
    "clevercsv.cabstraction": ["src/abstraction.c"],
}


class BuildError(Exception):
    pass


def ext_sources(repo):
    mods = {}
    try:
        with open(os.path.join(repo, "pyproject.toml"), "rb") as fp:
            conf = tomllib.load(fp)
        for m in conf["tool"]["setuptools"]["ext-modules"]:
            mods[m["name"]] = list(m["sources"])
    except (KeyError, OSError, tomllib.TOMLDecodeError):
        pass
    if not mods and os.path.exists(os.path.join(repo, "setup.py")):
        import re

        text = open(os.path.join(repo, "setup.py")).read()
        for m in re.finditer(
            r"Extension\(\s*(?:name\s*=\s*)?[\"']([\w.]+)[\"']\s*,\s*"
            r"(?:sources\s*=\s*)?\[([^\]]*)\]",
            text,
        ):
            mods[m.group(1)] = re.findall(r"[\"']([^\"']+)[\"']", m.group(2))
    return mods or FALLBACK


WRAPPED = [
    "malloc",
    "realloc",
    "calloc",
    "PyMem_Malloc",
    "PyMem_Realloc",
    "PyMem_Calloc",
    "PyUnicode_New",
    "PyUnicode_FromKindAndData",
    "PyUnicode_FromStringAndSize",
    "PyUnicode_Substring",
    "PyTuple_New",
    "PyList_New",
    "PyList_Append",
    "_PyObject_GC_New",
]


def build(repo, outdir, mode="plain"):
    """mode: plain, san (ASan and UBSan); plainoom, sanoom (with failing
    allocations)"""
    os.makedirs(outdir, exist_ok=True)
    inc = sysconfig.get_paths()["include"]
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    flags = ["-fPIC", "-shared", "-I" + inc, "-I" + os.path.join(repo, "src")]
    flags += ["-DNDEBUG", "-fno-strict-overflow"] if mode.startswith("plain") else []
    if mode.startswith("plain"):
        flags += ["-O2", "-g0", "-w"]
    else:
        flags += [
            "-O1",
            "-g",
            "-w",
            "-fno-omit-frame-pointer",
            "-fsanitize=address,undefined",
            "-fno-sanitize-recover=all",
        ]
    extra = []
    if mode.endswith("oom"):
        shim = os.path.join(
            os.path.dirname(os.path.abspath(__file__)), "oomshim.c"
        )
        flags += ["-Wl,--wrap=" + w for w in WRAPPED]
        extra = [shim]
    procs, result = [], {}
    for name, sources in ext_sources(repo).items():
        out = os.path.join(outdir, name.split(".")[-1] + suffix)
        srcs = [os.path.join(repo, s) for s in sources]
        missing = [s for s in srcs if not os.path.exists(s)]
        if missing:
            raise BuildError("missing sources %r" % missing)
        cmd = ["gcc", *srcs, *extra, *flags, "-o", out]
        procs.append(
            (
                cmd,
                subprocess.Popen(
                    cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT
                ),
            )
        )
        result[name] = out
    for cmd, p in procs:
        log = p.communicate()[0]
        if p.returncode != 0:
            raise BuildError(
                "%s\n%s" % (" ".join(cmd), log.decode(errors="replace"))
            )
    return result


def asan_runtime():
    out = subprocess.run(
        ["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True
    ).stdout.strip()
    if not os.path.isabs(out):
        raise BuildError("no ASan runtime")
    return os.path.realpath(out)


def build_shared(source, out, flags=()):
    cmd = ["gcc", "-O1", "-w", "-fPIC", "-shared", source, "-o", out, *flags]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr))
    return out

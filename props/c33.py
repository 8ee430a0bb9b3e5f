"""C33: optional packages are optional"""

import contextlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import types

import clevercsv
from clevercsv._optional import import_optional_dependency
from clevercsv.encoding import get_encoding

from lib import cli, files, gen, optional_ops
from lib.engine import Stratum

ID = "C33"
RULE = (
    "A case is either a set of optional packages that are made unimportable "
    "in a fresh process (absent, None in sys.modules, or failing while they "
    "are imported) together with files and work that doesn't need them, "
    "whose results are compared with this process, which has the packages; "
    "or a stand-in package with a random version, and the features that "
    "need it. Non-trivial: something is missing or has a version; distinct "
    "by packages, way, versions and files."
)
TECHNIQUE = "runtime monitoring: differential execution with and without the optional packages, import recorder and outcome monitor for the features that need them"
LEVEL_NOTE = "Samples of files, versions and ways to be missing; of the errors only the type and the named package are judged."
REQUIRED = [
    "processes without packages",
    "results compared",
    "missing reported",
    "missing tolerated",
    "too old refused",
    "new enough accepted",
    "versions unknown",
    "features without package",
    "unknown names refused",
    "applications without wilderness",
]
BUDGET = {"quick": 200, "thorough": 1500}

PACKAGES = optional_ops.PACKAGES
#: what is refused, and what the installation instructions ask for
TOO_OLD = {"tabview": (1, 4), "pandas": (0, 24, 1), "cchardet": (2, 1, 18), "wilderness": (0, 1, 5)}
ENOUGH = {"tabview": (1, 4), "pandas": (1, 0, 0), "cchardet": (2, 1, 18), "wilderness": (0, 1, 5)}


def setup(env):
    import pandas  # noqa: F401
    import tabview  # noqa: F401
    import wilderness  # noqa: F401
    import cchardet  # noqa: F401


@contextlib.contextmanager
def replaced(**mods):
    """Modules replaced in sys.modules (None: can't be imported)"""
    old = {n: sys.modules.get(n, Ellipsis) for n in mods}
    sys.modules.update(mods)
    try:
        yield
    finally:
        for n, m in old.items():
            if m is Ellipsis:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m


def names_it(ctx, exc, name, what, **info):
    ctx.check(isinstance(exc, ImportError), "%s doesn't raise ImportError" % what, got_exc=repr(exc), **info)
    msg = str(exc).lower()
    ctx.check(name in msg, "the error doesn't name the package", message_=msg, needs=name, what=what, **info)
    ctx.check("install" in msg, "the error doesn't tell what to do", message_=msg, needs=name, what=what, **info)


def fresh(ctx, rng, i):
    """All work that doesn't need the packages, in a process without them"""
    k = i % 6
    blocked = PACKAGES if k == 0 else [PACKAGES[k - 1]] if k <= 4 else rng.sample(PACKAGES, rng.randint(2, 3))
    how = rng.choice(["absent", "absent", "none", "broken"])
    folder = tempfile.mkdtemp()
    try:
        os.mkdir(os.path.join(folder, "stubs"))
        jobs = []
        for j in range(6):
            text = files.content(rng)
            data, enc = files.encode(rng, text)
            path = os.path.join(folder, "f%d.csv" % j)
            with open(path, "wb") as f:
                f.write(data)
            ops = list(optional_ops.OPS)
            if "wilderness" not in blocked:
                ops += optional_ops.COMMANDS
            rng.shuffle(ops)
            num = rng.choice([None, None, rng.randint(1, 200)])
            jobs.append([ops, path, text, enc, num, os.path.join(folder, "out.csv")])
        job = {"block": blocked, "how": how, "folder": os.path.join(folder, "stubs"), "jobs": jobs}
        p = subprocess.run(
            [sys.executable, os.path.join(optional_ops.HERE, "lib", "optional_ops.py")],
            input=json.dumps(job).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300,
        )
        info = dict(blocked=blocked, how=how)
        ctx.check(p.returncode == 0, "the work fails without the packages", stderr=p.stderr.decode("utf-8", "replace")[-1500:], **info)
        res = json.loads(p.stdout)
        ctx.event("processes without packages")
        # the other packages may be used here; the encodings that they find
        # differ, so they are found in the same way
        with replaced(**({"cchardet": None} if "cchardet" in blocked else {})):
            for job, got in zip(jobs, res):
                want = optional_ops.run(*job)
                for op, g, w in zip(job[0], got, want):
                    ctx.same(g, w, "result without the packages", op=op, text=job[2], encoding=job[3], num=job[4], **info)
                    ctx.event("results compared")
                    if g[0] == "ok":
                        ctx.event("results")
        ctx.nontrivial(tuple(blocked), how, tuple(j[2] for j in jobs))
        ctx.sample((blocked, how, len(jobs)))
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def version(rng, base, side):
    """A version below (-1), equal to (0) or above (1) the base"""
    parts = list(base)
    if side == 0:
        s = ".".join(map(str, parts))
        return s + rng.choice(["", "", ".0", ".0.0", ".post1", "+local"])
    if side < 0 and rng.random() < 0.2:
        # what comes before a release is older than the release
        return ".".join(map(str, parts)) + rng.choice(["rc1", ".dev3", "a1", "b2.dev1", ".0rc2", "c0"])
    for _ in range(100):
        k = rng.randrange(len(parts))
        q = list(parts)
        if side < 0:
            if q[k] == 0:
                continue
            q[k] = rng.randrange(q[k])
        else:
            q[k] = q[k] + rng.choice([1, 2, 5, 9, 10, 90])
        q[k + 1:] = [rng.choice([0, 1, 9, 10, 99]) for _ in q[k + 1:]]
        if rng.random() < 0.3:
            q.append(rng.choice([0, 3, 40]))
        return ".".join(map(str, q)) + (rng.choice(["", "", "", "rc1", ".dev0", ".post1", "+local"]) if rng.random() < 0.5 else "")
    if rng.random() < 0.5:
        return ".".join(map(str, base)) + "rc1"
    return ".".join(map(str, base)) + ".dev3"


def versions(ctx, rng, i):
    """Stand-ins with versions around the minimum"""
    name = PACKAGES[i % 4]
    side = rng.choice([-1, -1, 0, 1, 1, 2])
    mod = types.ModuleType(name)
    raise_on = rng.random() < 0.6
    if side == 2:
        v = None
        if rng.random() < 0.3:
            mod.__version__ = None
    else:
        v = version(rng, TOO_OLD[name] if side < 0 else ENOUGH[name], side)
        mod.__version__ = v
    info = dict(package=name, version=v, raise_on_missing=raise_on)
    with replaced(**{name: mod}):
        out = ctx.call(import_optional_dependency, name, raise_on_missing=raise_on)
        if side < 0:
            if raise_on or out.exc is not None:
                ctx.check(out.exc is not None, "a version that is too old is accepted", **info)
                ctx.check(isinstance(out.exc, ImportError), "the error for old versions", got_exc=repr(out.exc), **info)
                ctx.check(name in str(out.exc).lower(), "the error doesn't name the package", message_=str(out.exc), **info)
                ctx.check(
                    ".".join(map(str, TOO_OLD[name])) in str(out.exc) or ".".join(map(str, ENOUGH[name])) in str(out.exc),
                    "the error doesn't tell the version that is needed",
                    message_=str(out.exc),
                    **info,
                )
            else:
                ctx.check(out.value is None, "a version that is too old is returned", **info)
            ctx.event("too old refused")
        else:
            ctx.check(out.ok, "a version that is new enough is refused", got_exc=repr(out.exc), **info)
            ctx.check(out.value is mod, "not the package that was asked for", got_value=repr(out.value), **info)
            ctx.event("versions unknown" if v is None else "new enough accepted")
    again = import_optional_dependency(name)
    ctx.check(again is sys.modules[name] and again is not mod, "not the package that is there now", **info)
    ctx.nontrivial(name, v, raise_on)
    ctx.sample((name, v))


def missing(ctx, rng, i):
    """The import function itself, names known and unknown"""
    name = rng.choice(PACKAGES)
    with replaced(**{name: None}):
        out = ctx.call(import_optional_dependency, name)
        names_it(ctx, out.exc, name, "a missing package", package=name)
        out = ctx.call(import_optional_dependency, name, raise_on_missing=True)
        names_it(ctx, out.exc, name, "a missing package", package_=name)
        ctx.event("missing reported")
        out = ctx.call(import_optional_dependency, name, raise_on_missing=False)
        ctx.check(out.ok and out.value is None, "a missing package isn't tolerated", package=name, got_exc=repr(out.exc), got_value=repr(out.value))
        ctx.event("missing tolerated")
        for other in PACKAGES:
            if other != name:
                out = ctx.call(import_optional_dependency, other)
                ctx.check(out.ok and out.value is sys.modules[other], "another package is affected", missing=name, package=other, got_exc=repr(out.exc))
    unknown = rng.choice(["json", "os", "csv", "decimal", "chardet", "regex", "packaging"])
    importlib.import_module(unknown)
    out = ctx.call(import_optional_dependency, unknown)
    ctx.check(isinstance(out.exc, ImportError), "a package that CleverCSV doesn't know is accepted", package=unknown, got_exc=repr(out.exc))
    absent = "no_such_package_%s" % gen.word(rng, 3, 6).encode("ascii", "ignore").hex()
    out = ctx.call(import_optional_dependency, absent)
    ctx.check(isinstance(out.exc, ImportError), "an absent package", package=absent, got_exc=repr(out.exc))
    out = ctx.call(import_optional_dependency, absent, raise_on_missing=False)
    ctx.check(out.ok and out.value is None, "an absent package isn't tolerated", package=absent, got_exc=repr(out.exc))
    ctx.event("unknown names refused")
    ctx.nontrivial(name, unknown, absent)


def features(ctx, rng, i):
    """The features that need a package, with the package missing or old"""
    text = gen.write_csv([[gen.word(rng) for _ in range(3)] for _ in range(rng.randint(2, 6))])
    f = files.File(text.encode("utf-8"))
    try:
        name = ["pandas", "tabview", "cchardet"][i % 3]
        old = rng.random() < 0.4
        mod = None
        if old:
            mod = types.ModuleType(name)
            mod.__version__ = version(rng, TOO_OLD[name], -1)
            mod.view = lambda rows, **kw: None
            mod.read_csv = lambda *a, **kw: "loaded"
            mod.errors = types.SimpleNamespace(ParserWarning=Warning)

            class UniversalDetector:
                done = True
                result = {"encoding": "utf-8"}

                def feed(self, data):
                    raise AssertionError("the old cchardet is used")

                close = reset = lambda self: None

            mod.UniversalDetector = UniversalDetector
        info = dict(package=name, version=getattr(mod, "__version__", None), text=text)
        before = clevercsv.read_table(f.path, encoding="utf-8")
        with replaced(**{name: mod}):
            if name == "pandas":
                out = ctx.call(clevercsv.read_dataframe, f.path, **rng.choice([{}, {"encoding": "utf-8"}]))
                names_it(ctx, out.exc, name, "read_dataframe", **info)
            elif name == "tabview":
                r = cli.inside(["view", "-e", "utf-8", f.path])
                if r.exc is not None:
                    names_it(ctx, r.exc, name, "view", **info)
                else:
                    ctx.check(r.status not in (0, None), "view succeeds without tabview", run=r, **info)
                    ctx.check(name in (r.out + r.err).lower(), "view doesn't tell what is missing", run=r, **info)
            else:
                out = ctx.call(get_encoding, f.path)
                if old:
                    # refused, or as if it were not there
                    if out.exc is not None:
                        ctx.check(isinstance(out.exc, ImportError) and name in str(out.exc), "an old cchardet", got_exc=repr(out.exc), **info)
                    else:
                        ctx.same(out.value, get_encoding(f.path, try_cchardet=False), "encoding with an old cchardet", **info)
                else:
                    ctx.same(out.ok and out.value, get_encoding(f.path, try_cchardet=False), "encoding without cchardet", **info)
            # and all else still works
            ctx.same(clevercsv.read_table(f.path, encoding="utf-8"), before, "table", **info)
            ctx.event("features without package")
        ctx.nontrivial(name, old, text)
    finally:
        os.unlink(f.path)


CHILD = (
    "import sys; sys.path.insert(0, %r); from lib import optional_ops, inject; "
    "optional_ops.block(['wilderness'], sys.argv.pop(1), sys.argv.pop(1)); "
    "inject.install(); import runpy; "
    "sys.argv[0] = 'clevercsv'; runpy.run_module('clevercsv', run_name='__main__')" % optional_ops.HERE
)


def application(ctx, rng, i):
    folder = tempfile.mkdtemp()
    try:
        how = ["absent", "none", "broken"][i % 3]
        args = rng.choice([[], ["detect", "x.csv"], ["--help"], ["-V"], ["standardize", "x.csv"]])
        p = subprocess.run([sys.executable, "-c", CHILD, how, folder] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200, cwd=folder)
        err = p.stderr.decode("utf-8", "replace").lower()
        info = dict(how=how, args=args, stderr=err[-1500:], status=p.returncode)
        ctx.check(p.returncode not in (0, None) and p.returncode > 0, "the application succeeds without wilderness", **info)
        ctx.check("wilderness" in err and "install" in err, "the application doesn't tell that wilderness is missing", **info)
        ctx.check(p.stdout == b"", "the application prints something", stdout=p.stdout, **info)
        ctx.event("applications without wilderness")
        ctx.nontrivial(how, tuple(args))
    finally:
        shutil.rmtree(folder, ignore_errors=True)


STRATA = [
    Stratum("fresh", fresh, 72, 1200),
    Stratum("versions", versions, 4000, 60000),
    Stratum("missing", missing, 300, 5000),
    Stratum("features", features, 240, 4000),
    Stratum("application", application, 9, 60),
]

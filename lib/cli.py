"""Run the command line application, in this process or in one of its own."""

import contextlib
import io
import os
import subprocess
import sys

from clevercsv.console import build_application

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Run:
    """status (or None), exception, standard output and error"""

    def __init__(self, status, exc, out, err):
        self.status, self.exc, self.out, self.err = status, exc, out, err

    def __repr__(self):
        return "status %r, exception %r, stdout %r, stderr %r" % (
            self.status,
            self.exc,
            self.out[:600],
            self.err[-400:],
        )


def inside(args):
    out, err = io.StringIO(newline=""), io.StringIO(newline="")
    status = exc = None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            status = build_application().run(args=[str(a) for a in args])
        except SystemExit as e:
            status = e.code
        except Exception as e:
            exc = e
    return Run(status, exc, out.getvalue(), err.getvalue())


CHILD = (
    "import sys; sys.path.insert(0, %r); from lib import inject; "
    "inject.install(); from clevercsv.__main__ import main; "
    "sys.argv[0] = 'clevercsv'; main()" % HERE
)


def process(args, stdin=None, cwd=None, **env):
    """The same as a process; the output is bytes"""
    e = dict(os.environ)
    e.update(env)
    p = subprocess.run(
        [sys.executable, "-c", CHILD] + [os.fspath(a) for a in args],
        input=b"" if stdin is None else stdin,
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        env=e,
        cwd=cwd,
        timeout=200,
    )
    return Run(p.returncode, None, p.stdout, p.stderr.decode("utf-8", "replace"))

"""A scratch working directory for code that writes below the current one."""
import contextlib
import os
import shutil
import tempfile


@contextlib.contextmanager
def directory():
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="verif-scratch-")
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)

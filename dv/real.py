"""The real glum, built from /repo's current working tree.  The in-place .so is used
only when the build stamp shows it was built from the current .pyx; otherwise the
extension is compiled into a private cache outside /repo."""
import fcntl
import glob
import hashlib
import os
import subprocess
import sys

REPO = os.environ.get("GLUM_REPO", "/repo")
PKG = os.path.join(REPO, "src", "glum")
CACHE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".build")
PY = "/opt/venv/bin/python"

_SETUP = """
import sys, numpy as np
from Cython.Build import cythonize
from setuptools import Extension, setup
d = dict(include_dirs=[np.get_include()], extra_compile_args=["-fopenmp", "-O2", "--std=c++17", "-w"], extra_link_args=["-fopenmp"], language="c++")
setup(name="x", ext_modules=cythonize([Extension("glum." + n, ["glum/" + n + ".pyx"], **d) for n in sys.argv.pop().split(",")],
  annotate=False, compiler_directives={"language_level": "3", "boundscheck": False, "wraparound": False, "initializedcheck": False,
  "nonecheck": False, "cdivision": True, "legacy_implicit_noexcept": True, "cpow": True}))
"""


def sha(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def fresh(mod):
    """is the in-place .so of this module built from the current .pyx?"""
    so = glob.glob(os.path.join(PKG, mod + ".cpython-312-*.so"))
    try:
        with open(os.path.join(REPO, "build", "vp-stamps", "src.glum." + mod)) as f:
            return bool(so) and f.read().split()[0] == sha(os.path.join(PKG, mod + ".pyx"))
    except OSError:
        return False


def prepare():
    """directory to put on sys.path so that `import glum` runs the current tree."""
    mods = sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(PKG, "*.pyx")))
    if all(fresh(m) for m in mods):
        return os.path.join(REPO, "src")
    h = hashlib.sha256()
    for m in mods:
        h.update(sha(os.path.join(PKG, m + ".pyx")).encode())
    d = os.path.join(CACHE, h.hexdigest()[:20])
    os.makedirs(os.path.join(d, "glum"), exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        g = os.path.join(d, "glum")
        for p in glob.glob(os.path.join(PKG, "*.py")):
            t = os.path.join(g, os.path.basename(p))
            if os.path.islink(t):
                os.unlink(t)
            os.symlink(p, t)
        for p in glob.glob(os.path.join(PKG, "py.typed")):
            pass
        todo = []
        for m in mods:
            if not glob.glob(os.path.join(g, m + ".*.so")):
                src = glob.glob(os.path.join(PKG, m + ".cpython-312-*.so")) if fresh(m) else []
                if src:
                    os.symlink(src[0], os.path.join(g, os.path.basename(src[0])))
                else:
                    with open(os.path.join(PKG, m + ".pyx")) as a, open(os.path.join(g, m + ".pyx"), "w") as b:
                        b.write(a.read())
                    todo.append(m)
        if todo:
            with open(os.path.join(d, "setup.py"), "w") as f:
                f.write(_SETUP)
            r = subprocess.run([PY, "setup.py", "build_ext", "--inplace", "-j", "4", ",".join(todo)], cwd=d, capture_output=True, text=True,
                               env=dict(os.environ, PYTHONPATH=""))
            if r.returncode:
                raise RuntimeError("building the extensions of the current tree failed:\n" + r.stdout[-2000:] + r.stderr[-4000:])
    return d


def load():
    """import the real glum of the current tree (once per process)."""
    if "glum" in sys.modules and getattr(sys.modules["glum"], "_dv", False):
        return sys.modules["glum"]
    p = prepare()
    sys.dont_write_bytecode = True
    sys.path.insert(0, p)
    for m in [m for m in sys.modules if m == "glum" or m.startswith("glum.")]:
        del sys.modules[m]
    import glum
    f = os.path.realpath(glum.__file__)
    assert f.startswith(os.path.realpath(REPO)), f
    glum._dv = True
    return glum

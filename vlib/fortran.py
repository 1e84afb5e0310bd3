"""Builds the Fortran modules of /repo out of tree, and puts them (or stubs,
for the checks which do not call any Fortran) in place of the modules next to
the sources, which may be stale."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import types

from . import env

EXTS = ["remap_utils", "remap_1d_grid2grid", "remap_2d_grid2grid",
        "remap_3d_grid2grid"]
# -fcheck=all turns an out-of-bounds access into an immediate stop, and the
# -finit options make a read of an unset variable visible.
CHECKED = ("-O1 -g -fcheck=bounds,array-temps,do,mem,recursion -fno-check-array-temporaries "
           "-finit-real=nan -finit-integer=-99999")


class BuildError(Exception):
    pass


def build_all(outdir, flavours=("plain", "checked"), timeout=600):
    """Builds every extension in every flavour, in parallel, in outdir."""
    srcdir = os.path.join(env.REPO, "magpie", "src")
    procs = []
    for fl in flavours:
        dst = os.path.join(outdir, fl)
        os.makedirs(dst, exist_ok=True)
        for name in EXTS:
            src = os.path.join(srcdir, name + ".f90")
            if not os.path.exists(src):
                raise BuildError("missing " + src)
            e = env.worker_environ()
            # Debug flags are per flavour; nothing is written in /repo.
            if fl == "checked":
                e["FFLAGS"] = CHECKED
            cmd = [env.PY, "-m", "numpy.f2py", "-c", "--backend", "meson",
                   "--build-dir", os.path.join(dst, "bd_" + name),
                   "-I" + srcdir, "-m", name, src]
            log = open(os.path.join(dst, name + ".log"), "w")
            procs.append((fl, name, log, subprocess.Popen(
                cmd, cwd=dst, env=e, stdout=log, stderr=subprocess.STDOUT)))
    bad = []
    for fl, name, log, p in procs:
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = -1
        log.close()
        if rc != 0 or not find_so(os.path.join(outdir, fl), name):
            tail = open(log.name).read()[-1500:]
            bad.append("%s/%s rc=%s\n%s" % (fl, name, rc, tail))
    if bad:
        raise BuildError("building the Fortran failed:\n" + "\n".join(bad))


def find_so(d, name):
    for f in sorted(os.listdir(d)):
        if f.startswith(name + ".") and f.endswith(".so"):
            return os.path.join(d, f)
    return None


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, sodir):
        self.sodir = sodir

    def find_spec(self, fullname, path, target=None):
        if not fullname.startswith("magpie.src."):
            return None
        name = fullname.rsplit(".", 1)[1]
        if name not in EXTS:
            return None
        if self.sodir is None:
            return importlib.machinery.ModuleSpec(fullname, _StubLoader())
        so = find_so(self.sodir, name)
        if so is None:
            return None
        return importlib.util.spec_from_file_location(fullname, so)


class _Stub(types.ModuleType):
    def __getattr__(self, attr):
        if attr.startswith("__"):
            raise AttributeError(attr)

        def missing(*a, **k):
            raise RuntimeError("this check does not build the Fortran")
        return missing


class _StubLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return _Stub(spec.name)

    def exec_module(self, module):
        pass


def install(sodir):
    sys.meta_path.insert(0, _Finder(sodir))

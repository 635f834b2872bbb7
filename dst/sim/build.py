"""Scratch build of /repo's current working tree.

The tree is copied into a fresh scratch directory, qdipole and the C extensions
are compiled there with function-entry hooks (yield points, call depth), and the
operating system seam (simos.c) is compiled next to them. Nothing is written to
/repo or /opt/vp. The scratch directory is removed when the check ends.
"""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
PYTHON = "/opt/venv/bin/python"
INSTR = "-finstrument-functions"
WRAP = ["Py_BuildValue", "_Py_BuildValue_SizeT", "PyFloat_FromDouble", "PyTuple_New", "PyList_New"]


class BuildError(Exception):
    pass


def _run(cmd, cwd, env, log):
    with open(log, "ab") as out:
        rc = subprocess.call(cmd, cwd=cwd, env=env, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if rc:
        with open(log, "rb") as file_in:
            tail = file_in.read()[-3000:].decode(errors="replace")
        raise BuildError(f"{cmd!r} failed with code {rc}\n{tail}")


_SKIP_QD = {".o", ".mod", ".so"}


def _ignore(dirname, names):
    skip = set()
    for name in names:
        if name in ("build", "__pycache__", ".pytest_cache") or name.endswith((".so", ".o", ".mod", ".pyc")):
            # the data directory must stay, only build products are skipped
            skip.add(name)
    return skip


def build(instrument=True, keep=False):
    """ Build the current tree, returns the dictionary of paths. """
    base = tempfile.mkdtemp(prefix="dst-")
    if not keep:
        pid = os.getpid()

        def _cleanup():
            if os.getpid() == pid:
                shutil.rmtree(base, ignore_errors=True)
        atexit.register(_cleanup)
    root = os.path.join(base, "tree")
    log = os.path.join(base, "build.log")
    os.mkdir(root)
    shutil.copytree(os.path.join(REPO, "qdipole"), os.path.join(root, "qdipole"), ignore=_ignore, symlinks=True)
    shutil.copytree(os.path.join(REPO, "eoxmagmod"), os.path.join(root, "eoxmagmod"), ignore=_ignore, symlinks=True)
    for name in ("config.status", "config.log", "Makefile", "qdipole_conf.h", "subsol_test",
                 "qdlatlon_test", "mlt_test", "qdipole_info"):
        path = os.path.join(root, "qdipole", name)
        if os.path.exists(path):
            os.remove(path)
    qdir = os.path.join(root, "qdipole")
    env = {
        "HOME": base, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC", "TMPDIR": base,
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "SPACEPY": os.path.join(base, "spacepy"), "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "CPATH": root, "LIBRARY_PATH": qdir, "LD_LIBRARY_PATH": qdir, "LDFLAGS": f"-Wl,-rpath,{qdir}",
    }
    os.makedirs(env["SPACEPY"], exist_ok=True)
    simos = os.path.join(base, "simos.so")
    so_env = dict(env)
    extra = INSTR if instrument else ""
    # the linker flags keep the default symbol binding, the hooks come from simos.so

    def _build_qd():
        cfg = dict(so_env, CFLAGS=f"-O2 {extra}".strip())
        _run(["bash", "./configure"], qdir, cfg, log)
        _run(["make", "libqdipole.so"], qdir, cfg, log)

    def _build_sim():
        _run(["gcc", "-O2", "-fPIC", "-shared", "-fno-builtin-malloc", "-o", simos,
              os.path.join(HERE, "simos.c"), "-ldl", "-lpthread"], base, so_env, log + ".sim")

    def _build_ext():
        cfg = dict(so_env, CFLAGS=extra)
        if instrument:
            cfg["LDFLAGS"] += "".join(f" -Wl,--wrap={name}" for name in WRAP)
        _run([PYTHON, "setup.py", "-q", "build_ext", "--inplace", "-j", "4"], os.path.join(root, "eoxmagmod"), cfg, log)

    _build_sim()
    _build_qd()
    _build_ext()
    return {"base": base, "root": root, "pkg": os.path.join(root, "eoxmagmod"), "simos": simos, "env": env}


if __name__ == "__main__":
    print(build(keep=True), file=sys.stdout)

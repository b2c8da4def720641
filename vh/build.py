"""Builds /repo's current working tree out of tree, and unpacks hypothesis.

Nothing is written in /repo or /opt/vp.  Build products are cached by the hash of
everything they are made of, so an unchanged tree is built once.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
PYTHON = "/opt/venv/bin/python"
WHEELS = "/opt/veriftools/wheels"

SKIP_SUFFIX = (".so", ".o", ".mod", ".pyc", ".log")
SKIP_NAMES = {"build", "__pycache__", ".git", "tests", ".pytest_cache", "config.status"}
QD_PRODUCTS = {"Makefile", "qdipole_conf.h", "subsol_test", "qdlatlon_test",
               "mlt_test", "qdipole_info"}

ASAN_FLAGS = "-O1 -g -fno-omit-frame-pointer -fsanitize=address"


class BuildError(Exception):
    pass


def _files(base, skip_names):
    for dirpath, dirnames, filenames in os.walk(base):
        dirnames[:] = sorted(d for d in dirnames if d not in SKIP_NAMES)
        for name in sorted(filenames):
            if name in skip_names or name in SKIP_NAMES or name.endswith(SKIP_SUFFIX):
                continue
            path = os.path.join(dirpath, name)
            if os.path.isfile(path):
                yield os.path.relpath(path, base)


def _sources():
    for rel in _files(os.path.join(REPO, "qdipole"), QD_PRODUCTS):
        yield os.path.join("qdipole", rel)
    for rel in _files(os.path.join(REPO, "eoxmagmod"), set()):
        yield os.path.join("eoxmagmod", rel)


def _hash(paths, salt):
    digest = hashlib.sha256(salt.encode())
    for rel in paths:
        digest.update(rel.encode() + b"\0")
        with open(os.path.join(REPO, rel), "rb") as f:
            digest.update(hashlib.sha256(f.read()).digest())
    return digest.hexdigest()[:24]


class _Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.path = os.path.join(WORK, name + ".lock")

    def __enter__(self):
        self.file = open(self.path, "w")
        fcntl.flock(self.file, fcntl.LOCK_EX)

    def __exit__(self, *args):
        self.file.close()


def site():
    """Directory with hypothesis for /opt/venv's Python (unpacked wheels)."""
    target = os.path.join(WORK, "site")
    with _Lock("site"):
        if not os.path.exists(os.path.join(target, ".done")):
            shutil.rmtree(target, ignore_errors=True)
            os.makedirs(target)
            for pattern in ("hypothesis-*cp312-cp312*x86_64*.whl", "sortedcontainers-*.whl"):
                found = sorted(glob.glob(os.path.join(WHEELS, pattern)))
                if not found:
                    raise BuildError("no wheel " + pattern)
                with zipfile.ZipFile(found[-1]) as wheel:
                    wheel.extractall(target)
            open(os.path.join(target, ".done"), "w").close()
    return target


def _run(cmd, cwd, env, log):
    with open(log, "ab") as f:
        f.write(("\n$ %s\n" % " ".join(cmd)).encode())
        f.flush()
        rc = subprocess.call(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=f)
    if rc != 0:
        with open(log, errors="replace") as f:
            tail = "".join(f.readlines()[-25:])
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), tail))


def _base_env(target):
    env = {k: v for k, v in os.environ.items()
           if k not in ("CFLAGS", "LDFLAGS", "CPATH", "LIBRARY_PATH", "LD_LIBRARY_PATH", "LD_PRELOAD")}
    env.update(
        CPATH=target, LIBRARY_PATH=os.path.join(target, "qdipole"),
        LD_LIBRARY_PATH=os.path.join(target, "qdipole"),
        LDFLAGS="-Wl,-rpath," + os.path.join(target, "qdipole"),
        LANG="C.UTF-8", LC_ALL="C.UTF-8",
        PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        PYTHONDONTWRITEBYTECODE="1",
    )
    return env


def build(variant="plain"):
    """Build the tree and return its directory (contains qdipole/ and eoxmagmod/)."""
    sources = list(_sources())
    key = _hash(sources, variant + "|2")
    target = os.path.join(WORK, "build-%s-%s" % (variant, key))
    with _Lock("build-" + variant):
        if os.path.exists(os.path.join(target, ".done")):
            return target
        for old in glob.glob(os.path.join(WORK, "build-%s-*" % variant)):
            if os.path.isdir(old):
                shutil.rmtree(old, ignore_errors=True)
        for rel in sources:
            dst = os.path.join(target, rel)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, rel), dst)
        log = os.path.join(target, "build.log")
        env = _base_env(target)
        qdir = os.path.join(target, "qdipole")
        qenv = dict(env)
        qenv.pop("LDFLAGS")
        ext_env = dict(env)
        if variant == "asan":
            # as the configure script lets the user choose the flags
            qenv["CFLAGS"] = "-fPIC " + ASAN_FLAGS
            qenv["LDFLAGS"] = "-fsanitize=address"
            ext_env["CFLAGS"] = ASAN_FLAGS + " -fsanitize=bounds,null,object-size"
            ext_env["LDFLAGS"] = env["LDFLAGS"] + " -fsanitize=address,undefined"
        _run(["bash", "./configure"], qdir, qenv, log)
        make = ["make", "libqdipole.so"]
        if variant == "asan":
            make += ["CFLAGS=" + qenv["CFLAGS"], "LDFLAGS=-fsanitize=address"]
        _run(make, qdir, qenv, log)
        edir = os.path.join(target, "eoxmagmod")
        _run([PYTHON, "setup.py", "build_ext", "--inplace", "--parallel", "4"], edir, ext_env, log)
        for name in ("_pymm", "_pyqd", "_pysunpos", "_pytimeconv"):
            if not glob.glob(os.path.join(edir, "eoxmagmod", name + ".*.so")):
                raise BuildError("extension %s was not built" % name)
        open(os.path.join(target, ".done"), "w").close()
    return target


def spacepy_home():
    target = os.path.join(WORK, "spacepy")
    with _Lock("spacepy"):
        if not os.path.isdir(target):
            if os.path.isdir("/opt/vp/spacepy"):
                shutil.copytree("/opt/vp/spacepy", target)
            else:
                os.makedirs(target)
    return target


def worker_env(target):
    env = _base_env(target)
    env["PYTHONPATH"] = os.pathsep.join([site(), VERIF, os.path.join(target, "eoxmagmod")])
    env["SPACEPY"] = spacepy_home()
    env["PYTHONHASHSEED"] = "0"
    env["VH_BUILD"] = target
    for name in ("CPATH", "LIBRARY_PATH", "LDFLAGS"):
        env.pop(name)
    return env


if __name__ == "__main__":
    try:
        site()
        spacepy_home()
        for variant_ in ("plain", "asan"):
            print(variant_, build(variant_))
    except BuildError as error:
        print("BUILD FAILED:", error)
        sys.exit(1)

"""Builds the extension modules from /repo's current sources into /verif/.build (never into /repo).

Every flavour is cached under the hash of all the sources it is made of, so a changed tree is always rebuilt.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".build")
RUNTIME = os.path.join(VERIF, "mc", "native", "rt.c")

#: flavour -> (cython arguments, C compiler arguments, link arguments)
FLAVOURS = {
    "plain": ([], ["-O2"], []),
    # every Cython index expression is checked, failures are reported through sys.unraisablehook; local C variables start
    # with a conspicuous value
    "bounds": (["-X", "boundscheck=True", "-X", "wraparound=False", "-X", "initializedcheck=True"],
               ["-O1", "-ftrivial-auto-var-init=pattern"], []),
    # a call into mc/native/rt.c at every memory access: the points where a thread may be preempted
    "traced": ([], ["-O1", "-fsanitize=thread"], []),
}


class BuildError(Exception):
    """The tree does not build."""


def _sources():
    pats = ("*.pyx", "*.pxd", "*.pxi", "*.h", "*.c")
    res = []
    for pat in pats:
        for path in sorted(glob.glob(os.path.join(REPO, "geotiepoints", "**", pat), recursive=True)):
            stem = os.path.splitext(path)[0]
            if path.endswith(".c") and os.path.exists(stem + ".pyx"):
                continue  # left behind by an in-place build
            res.append(path)
    return res


def module_names():
    """Extension modules of the tree, as dotted names."""
    base = os.path.join(REPO, "")
    return {os.path.splitext(p[len(base):])[0].replace(os.sep, "."): p for p in _sources() if p.endswith(".pyx")}


def _digest(flavour):
    h = hashlib.sha256()
    h.update(repr((flavour, FLAVOURS[flavour], sys.version)).encode())
    for path in (__file__, RUNTIME):
        with open(path, "rb") as f:
            h.update(f.read())
    for path in _sources():
        h.update(path.encode())
        with open(path, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def _build_one(name, flavour, srcdir, outdir):
    import numpy
    cy_args, cc_args, ld_args = FLAVOURS[flavour]
    rel = name.replace(".", "/")
    c_file = os.path.join(outdir, name + ".c")
    _run([sys.executable, "-m", "cython", "-3", "-X", "freethreading_compatible=True"] + cy_args
         + [rel + ".pyx", "-o", c_file], srcdir)
    so, obj = os.path.join(outdir, name + ".so"), os.path.join(outdir, name + ".o")
    _run(["gcc", "-c", "-fPIC", "-fwrapv", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION", "-w"] + cc_args
         + ["-I" + sysconfig.get_path("include"), "-I" + numpy.get_include(),
            "-I" + os.path.join(srcdir, "geotiepoints"), c_file, "-o", obj], outdir)
    # linked without the sanitizer: its calls go to mc/native/rt.c
    _run(["gcc", "-shared", obj, "-o", so, "-lm"] + ld_args, outdir)
    os.unlink(obj)
    os.unlink(c_file)


def build(flavour="plain"):
    """Directory holding <dotted name>.so for every extension module."""
    os.makedirs(CACHE, exist_ok=True)
    target = os.path.join(CACHE, flavour + "-" + _digest(flavour))
    with open(os.path.join(CACHE, flavour + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(target, "done")):
            return target
        for old in glob.glob(os.path.join(CACHE, flavour + "-*")):
            shutil.rmtree(old)
        # Cython runs on a copy: nothing is written in /repo, and in-place leftovers do not matter
        srcdir = os.path.join(target, "src")
        for path in _sources() + sorted(glob.glob(os.path.join(REPO, "geotiepoints", "**", "__init__.py"), recursive=True)):
            dst = os.path.join(srcdir, os.path.relpath(path, REPO))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            if flavour == "bounds" and path.endswith((".pyx", ".pxd")):
                with open(path, encoding="utf-8") as f:
                    src = f.read()
                with open(dst, "w", encoding="utf-8") as f:  # local directives would win over the command line
                    f.write(re.sub(r"(boundscheck\s*[=(]\s*)False", r"\1True", src))
            else:
                shutil.copy(path, dst)
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            list(pool.map(lambda n: _build_one(n, flavour, srcdir, target), sorted(module_names())))
        shutil.rmtree(srcdir)
        if flavour == "traced":
            _run(["gcc", "-O2", "-shared", "-fPIC", "-w", RUNTIME, "-o", os.path.join(target, "rt.so"), "-lpthread", "-ldl"], target)
        with open(os.path.join(target, "done"), "w"):
            pass
    return target


if __name__ == "__main__":
    for fl in sys.argv[1:] or FLAVOURS:
        print(fl, build(fl))

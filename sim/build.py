"""Builds, from /repo's current working tree, the importable trees the checks run.

tree("sim")    every extension that contains OpenMP code is compiled with -fopenmp -fsanitize=thread and linked to the
               simulated runtime (native/simomp.cpp) instead of libgomp/libtsan.
tree("plain")  the extensions as /opt/vp/build.sh builds them (no OpenMP): the in-tree .so when it was built from the
               sources now in /repo (build/inputs.json says from what), a fresh build of the current sources otherwise.

Everything lives under /verif/.cache (ignored by git) and is keyed by content: the Cython output by the hash of its
inputs, the object by the hash of the preprocessed translation unit, the tree by the hash of all of it.  Nothing is
written in /repo."""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CACHE = os.environ.get("VERIF_CACHE") or os.path.join(VERIF, ".cache")
SRC = os.path.join(CACHE, "src")
PY = "/opt/venv/bin/python"
EXT = ".cpython-312-x86_64-linux-gnu.so"

GC = "quspin/basis/basis_general/_basis_general_core"
MV = "quspin/tools/matvec"
EX = "quspin/tools/expm_multiply_parallel_core"
B1 = "quspin/basis/basis_1d/_basis_1d_core"

# name -> (package dir, include dirs, extra flags, instrumented -O level)
GENERAL = ["hcb_core", "higher_spin_core", "boson_core", "spinless_fermion_core", "spinful_fermion_core", "user_core"]
EXTS = {}
for _n in GENERAL:
    EXTS[_n] = (GC, [GC + "/source"], ["-std=c++11"], "-O0")
EXTS["general_basis_utils"] = (GC, [GC + "/source"], ["-std=c++11"], "-O0")
EXTS["_oputils"] = (MV, [MV + "/_oputils"], [], "-O1")
EXTS["expm_multiply_parallel_wrapper"] = (EX, [EX + "/source", MV + "/_oputils"], [], "-O1")
EXTS["csr_matvec_wrapper"] = (EX, [EX + "/source"], [], "-O1")
SIM = list(EXTS)
for _n in ["hcp_basis", "spf_basis", "boson_basis", "hcp_ops", "spf_ops", "boson_ops"]:
    EXTS[_n] = (B1, [B1 + "/sources"], [], None)
EXTS["_basis_utils"] = ("quspin/basis", ["quspin/basis/_basis_utils"], [], None)

SRC_SUFFIX = (".py", ".pyx", ".pxd", ".pxi", ".h", ".hpp")
INPUT_SUFFIX = (".pyx", ".pxd", ".pxi", ".h", ".hpp")


class BuildError(Exception):
    pass


def sha(data):
    if isinstance(data, str):
        data = data.encode()
    return hashlib.sha256(data).hexdigest()


def run(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd[:3] + cmd[-3:]), p.stdout[-3000:]))
    return p.stdout


def clean_env():
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME", "CFLAGS", "CXXFLAGS", "LDFLAGS")}
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8", PYTHONNOUSERSITE="1")
    return e


def put(path, data):
    """Write only when the content changes, atomically."""
    try:
        if open(path, "rb").read() == data:
            return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".new%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)
    return True


def sync():
    """Mirror the sources of /repo/quspin to SRC; returns {relative path: sha256} of what /repo holds."""
    have = {}
    for root, dirs, files in os.walk(os.path.join(REPO, "quspin")):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if f.endswith(SRC_SUFFIX):
                p = os.path.join(root, f)
                rel = os.path.relpath(p, REPO)
                data = open(p, "rb").read()
                have[rel] = sha(data)
                if rel.endswith("/bits_info.h"):
                    continue
                put(os.path.join(SRC, rel), data)
    for rel in list(have):
        if rel.endswith("/bits_info.h"):
            # the instrumented build maps the three widest state types to the 256 bit one: half the template
            # instantiations, the same code (no simulated system has more than 256 sites)
            text = open(os.path.join(REPO, rel)).read()
            cut = text.rindex("#endif")
            text = (text[:cut] + "\n#ifdef SIM_REDUCE\n#define uint1024_t uint256_t\n#define uint4096_t uint256_t\n"
                    "#define uint16384_t uint256_t\n#endif\n" + text[cut:])
            put(os.path.join(SRC, rel), text.encode())
    for root, dirs, files in os.walk(os.path.join(SRC, "quspin")):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), SRC)
            if f.endswith(SRC_SUFFIX) and rel not in have and not f.endswith("_impl.h"):
                os.remove(os.path.join(root, f))
    return have


def generate(have):
    """Run the repository's header generators in the mirror when they changed."""
    for d, script, out in ((MV, "generate_oputils.py", "_oputils/oputils_impl.h"),
                           (EX, "generate_source.py", "source/expm_multiply_parallel_impl.h")):
        s = os.path.join(SRC, d, script)
        if not os.path.exists(s):
            continue
        key = sha(open(s, "rb").read())
        stamp = os.path.join(CACHE, "gen", script + ".stamp")
        target = os.path.join(SRC, d, out)
        if os.path.exists(target) and os.path.exists(stamp) and open(stamp).read() == key:
            continue
        run([PY, s], cwd=os.path.join(SRC, d), env=clean_env())
        put(stamp, key.encode())


def fresh_in_tree(have, name):
    """Is the .so in /repo built from the sources now in /repo?"""
    d = EXTS[name][0]
    so = os.path.join(REPO, d, name + EXT)
    if not os.path.exists(so):
        return None
    try:
        old = json.load(open(os.path.join(REPO, "build", "inputs.json")))
    except (OSError, ValueError):
        return None
    deps = dep_dirs(name)
    for rel, digest in have.items():
        if rel.endswith(INPUT_SUFFIX) and relevant(rel, name, deps):
            was = old.get(os.path.join(REPO, rel))
            if not was or was[0] != digest:
                return None
    for p in old:
        rel = os.path.relpath(p, REPO)
        if relevant(rel, name, deps) and rel not in have and not rel.endswith("_impl.h"):
            return None
    for script in ("generate_oputils.py", "generate_source.py"):
        for rel in have:
            if rel.endswith("/" + script) and os.path.dirname(rel) == d:
                gen = {"generate_oputils.py": MV + "/_oputils/oputils_impl.h",
                       "generate_source.py": EX + "/source/expm_multiply_parallel_impl.h"}[script]
                was = old.get(os.path.join(REPO, gen))
                try:
                    now = sha(open(os.path.join(SRC, gen), "rb").read())
                except OSError:
                    now = None
                if was and now and was[0] != now:
                    return None
    return so


def dep_dirs(name):
    d, inc, _, _ = EXTS[name]
    return inc


def relevant(rel, name, deps):
    d = EXTS[name][0]
    if any(rel.startswith(x + "/") for x in deps):
        return True
    if os.path.dirname(rel) == d and rel.endswith(INPUT_SUFFIX):
        stem = os.path.splitext(os.path.basename(rel))[0]
        return stem == name or stem not in EXTS
    return False


_PYINC = None


def includes():
    global _PYINC
    if _PYINC is None:
        out = run([PY, "-c", "import numpy,sysconfig;print(sysconfig.get_paths()['include']);print(numpy.get_include())"],
                  env=clean_env()).split("\n")
        _PYINC = [out[0].strip(), out[1].strip()]
    return _PYINC


def cython(name, have):
    d, inc, _, _ = EXTS[name]
    deps = dep_dirs(name)
    key = sha(json.dumps(sorted((r, h) for r, h in have.items()
                                if r.endswith((".pyx", ".pxd", ".pxi")) and relevant(r, name, deps))) + name)
    cpp = os.path.join(CACHE, "cpp", "%s-%s.cpp" % (name, key[:20]))
    if not os.path.exists(cpp):
        os.makedirs(os.path.dirname(cpp), exist_ok=True)
        tmp = os.path.join(SRC, d, name + ".cpp")
        cmd = [PY, "-m", "cython", "-2", "--cplus", "-o", tmp]
        for i in inc:
            cmd += ["-I", os.path.join(SRC, i)]
        cmd += ["-I", includes()[1], os.path.join(SRC, d, name + ".pyx")]
        run(cmd, cwd=SRC, env=clean_env())
        os.replace(tmp, cpp)
    return cpp


def compile_ext(name, have, variant):
    """Returns the path of the shared object."""
    d, inc, extra, level = EXTS[name]
    cpp = cython(name, have)
    if variant == "sim":
        flags = [level, "-fopenmp", "-fsanitize=thread", "-DSIM_REDUCE"]
    else:
        # a changed general core is rebuilt with the same reduced set of types and without optimisation: its plain
        # build takes five minutes
        flags = ["-O0", "-DSIM_REDUCE"] if name in GENERAL else ["-O0"] if d == B1 else ["-O1"]
    flags += ["-g0", "-fPIC", "-w", "-fno-strict-aliasing"] + extra
    incs = ["-I", os.path.join(SRC, d)]
    for i in inc:
        incs += ["-I", os.path.join(SRC, i)]
    for i in includes():
        incs += ["-I", i]
    base = ["g++"] + flags + incs
    p = subprocess.run(base + ["-E", "-P", cpp], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise BuildError("%s: %s" % (name, p.stderr.decode(errors="replace")[-3000:]))
    key = sha(p.stdout + " ".join(flags).encode())[:24]
    so = os.path.join(CACHE, "so", variant, "%s-%s.so" % (name, key))
    if not os.path.exists(so):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        obj = so[:-3] + ".%d.o" % os.getpid()
        run(base + ["-c", cpp, "-o", obj])
        tmp = so + ".new%d" % os.getpid()
        link = ["g++", "-shared", obj, "-o", tmp]
        if variant == "sim":
            link += ["-L" + os.path.join(CACHE, "lib"), "-lsimomp", "-Wl,-rpath," + os.path.join(CACHE, "lib")]
        run(link)
        os.remove(obj)
        os.replace(tmp, so)
    else:
        os.utime(so)
    return so


def runtime():
    src = os.path.join(VERIF, "sim", "native", "simomp.cpp")
    key = sha(open(src, "rb").read())
    lib = os.path.join(CACHE, "lib", "libsimomp.so")
    stamp = lib + ".key"
    if not (os.path.exists(lib) and os.path.exists(stamp) and open(stamp).read() == key):
        os.makedirs(os.path.dirname(lib), exist_ok=True)
        run(["g++", "-O2", "-g", "-fPIC", "-shared", "-w", "-Wl,-soname,libsimomp.so", src, "-o", lib + ".new"])
        os.replace(lib + ".new", lib)
        put(stamp, key.encode())
    src = os.path.join(VERIF, "sim", "native", "simfs.c")
    key = sha(open(src, "rb").read())
    fs = os.path.join(CACHE, "lib", "libsimfs.so")
    stamp = fs + ".key"
    if not (os.path.exists(fs) and os.path.exists(stamp) and open(stamp).read() == key):
        run(["gcc", "-O2", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fPIC", "-shared", "-w", src, "-o", fs + ".new"])
        os.replace(fs + ".new", fs)
        put(stamp, key.encode())
    return lib


def tree(variant="plain", need=None, quiet=False):
    """Path of a directory to put on sys.path; `need`: the instrumented extensions wanted (default: all of them)."""
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        have = sync()
        generate(have)
        runtime()
        sim = set(SIM if need is None else need) if variant == "sim" else set()
        sos, todo = {}, []
        for name in EXTS:
            if name in sim:
                todo.append((name, "sim"))
            else:
                so = fresh_in_tree(have, name)
                if so:
                    sos[name] = so
                else:
                    todo.append((name, "plain"))
        todo.sort(key=lambda x: (x[0] not in GENERAL, "_ops" not in x[0]))
        with ThreadPoolExecutor(8) as pool:
            futs = [(n, pool.submit(compile_ext, n, have, v)) for n, v in todo]
            errors = []
            for n, f in futs:
                try:
                    sos[n] = f.result()
                except BuildError as e:
                    errors.append(str(e))
            if errors:
                raise BuildError("\n".join(errors))
        pys = sorted((r, h) for r, h in have.items() if r.endswith(".py"))
        ident = json.dumps([pys, sorted((n, s, os.stat(s).st_mtime_ns if s.startswith(REPO) else 0) for n, s in sos.items())])
        digest = sha(ident)[:20]
        root = os.path.join(CACHE, "trees", variant + "-" + digest)
        if not os.path.exists(os.path.join(root, "ok")):
            tmp = root + ".new%d" % os.getpid()
            shutil.rmtree(tmp, ignore_errors=True)
            for rel, _ in pys:
                dst = os.path.join(tmp, rel)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, rel), dst)
            for n, s in sos.items():
                os.symlink(s, os.path.join(tmp, EXTS[n][0], n + EXT))
            open(os.path.join(tmp, "ok"), "w").write(digest)
            shutil.rmtree(root, ignore_errors=True)
            os.replace(tmp, root)
        os.utime(root)
        # keep the cache small: the newest few trees and objects only
        for pat, keep in (("trees/*", 12), ("so/sim/*.so", 60), ("so/plain/*.so", 60), ("cpp/*.cpp", 60)):
            old = sorted(glob.glob(os.path.join(CACHE, pat)), key=os.path.getmtime)[:-keep]
            for o in old:
                if os.path.isdir(o):
                    shutil.rmtree(o, ignore_errors=True)
                else:
                    os.remove(o)
    if not quiet:
        print("build: %s tree %s (%d extensions compiled or checked, %.1f s)" % (variant, root, len(todo), time.time() - t0))
        sys.stdout.flush()
    return root


if __name__ == "__main__":
    for v in sys.argv[1:] or ["sim", "plain"]:
        tree(v)

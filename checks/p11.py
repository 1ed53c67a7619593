"""P11: archives of quantum_operators on a simulated storage that fails, cuts writes short, and loses power."""
import ctypes
import errno
import mmap
import os
import random
import shutil
import tempfile
import warnings
import numpy as np
import scipy.sparse as sp
from checks.util import rnd, interrupt
from sim.core import Violation

ID = "P11"
TREE = "plain"
PRELOAD = True
NEED = None
QUICK = (2500, 70)
THOROUGH = (80000, 2400)
SHRINK = {"ops": 1}
RULE = ("seeded history of save_zip and load_zip calls of several processes on the same archives, with storage errors, full disks, short and torn writes, process death and loss of "
        "power before or inside a chosen storage operation, interrupts before a chosen line, truncated archives and read errors; after every step every archive loads as the "
        "operator saved last, or, for the step that failed, as the one before; non-trivial when a fault hit; distinct by scenario")
REAL = ["quspin.operators.save_zip/load_zip", "zipfile", "numpy and scipy file formats", "the file system below the seam"]
STUB = ["libc file operations below the directory of the archives: counted, failed, cut short or turned into process death by the simulator",
        "fsync: records what survives a loss of power"]
KEYS = ["a", "b", "J z", "sparse_x", "dense_.npz", "x/y", "..", "sparse", "dense", "é", "", "basis.pickle", ".npz", "a.npz.npz", "A"]
MODES = {"error": 1, "crash": 2, "power": 2, "short": 3, "full": 4, "readerr": 5}


class Shared(ctypes.Structure):
    _fields_ = [(k, ctypes.c_long) for k in "n at mode err armed fired reads shorts what".split()]


def setup():
    global quantum_operator, save_zip, load_zip, spin_basis_1d, boson_basis_1d, spin_basis_general, fs, S
    from quspin.operators import quantum_operator, save_zip, load_zip
    from quspin.basis import spin_basis_1d, spin_basis_general
    fs = ctypes.CDLL(None)
    buf = mmap.mmap(-1, 4096)
    S = Shared.from_buffer(buf)
    fs.simfs_init.argtypes = [ctypes.c_void_p]
    fs.simfs_init(ctypes.addressof(S))
    fs.simfs_arm.argtypes = [ctypes.c_char_p, ctypes.c_char_p] + [ctypes.c_long] * 3


def gen(rng, tier):
    sc = {"cseed": rng.getrandbits(40), "ops": []}
    for _ in range(rng.randint(2, 7)):
        k = rng.choice(["save"] * 5 + ["load", "torn", "overwrite"])
        op = {"k": k, "file": rng.choice([0, 0, 0, 1]), "seed": rng.getrandbits(31), "fault": rng.choice(["none", "none", "error", "error", "crash", "crash", "power", "power", "short", "full", "interrupt"]),
              "at": rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, rng.randint(1, 60)]), "fork": rng.random() < 0.3, "path": rng.choice(["abs", "abs", "rel", "link", "pathlib"])}
        if k == "load":
            op["fault"] = rng.choice(["none", "readerr", "interrupt"])
        sc["ops"].append(op)
    return sc


def operator(rng):
    """A quantum_operator and what an archive of it has to give back."""
    dt = rng.choice("fdFD")
    T = {"f": np.float32, "d": np.float64, "F": np.complex64, "D": np.complex128}[dt]
    basis = None
    if rng.random() < 0.5:
        L = rng.choice([1, 2, 3])
        basis = spin_basis_1d(L) if rng.random() < 0.7 else spin_basis_general(L, Nup=1)
        n = basis.Ns
    else:
        n = rng.choice([1, 2, 3, 5, 40])
    d, want = {}, {}
    for k in rng.sample(KEYS, rng.choice([0, 1, 1, 2, 3])):
        rs = np.random.RandomState(rng.getrandbits(31))
        A = rnd(rs, (n, n), T) * (rs.uniform(size=(n, n)) < rng.choice([0.2, 1.0]))
        A = A.astype(T)
        f = rng.choice(["csr", "csc", "dia", "dense", "denseF"])
        if not np.abs(A).max() > 1e-2:
            continue
        d[k] = [getattr(sp, f + "_matrix")(A)] if f in ("csr", "csc", "dia") else [np.array(A, order="F" if f == "denseF" else "C")]
        want[k] = (A, f if f in ("csr", "csc", "dia") else "dense")
    op = quantum_operator(d, basis=basis, shape=(n, n), dtype=T)
    return op, {"m": want, "dt": np.dtype(T), "n": n, "basis": None if basis is None else basis.Ns}


def matches(r, w):
    """Why the loaded operator r is not the saved one, or None."""
    if np.dtype(r.dtype) != w["dt"]:
        return "dtype %s, saved %s" % (r.dtype, w["dt"])
    if tuple(r.shape) != (w["n"], w["n"]):
        return "shape %s, saved %s" % (r.shape, w["n"])
    tot = np.zeros((w["n"], w["n"]), complex)
    for j, (k, (A, f)) in enumerate(sorted(w["m"].items())):
        try:
            B = r.get_operators(k)
        except KeyError:
            return "key %r is missing" % k
        if (B.format if sp.issparse(B) else "dense") != f:
            return "key %r: format %r, saved %s" % (k, type(B), f)
        if not np.array_equal(B.toarray() if sp.issparse(B) else B, A):
            return "key %r: other matrix" % k
        tot = tot + (j + 2) * A
    got = r.toarray(pars={k: j + 2 for j, k in enumerate(sorted(w["m"]))})
    if not np.allclose(got, tot, atol=1e-4 * (1 + np.abs(tot).max())):
        return "more or other terms than saved"
    if w.get("withbasis"):
        if r.basis.Ns != w["basis"]:
            return "basis of %d states, saved %d" % (r.basis.Ns, w["basis"])
    return None


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.root = tempfile.mkdtemp(prefix="p11.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        for d in ("a", "tmp", "shadow", "ln"):
            os.mkdir(os.path.join(self.root, d))
        self.dir = os.path.join(self.root, "a")
        for i in (0, 1):
            os.symlink(os.path.join(self.dir, "op%d.zip" % i), os.path.join(self.root, "ln", "op%d.zip" % i))
        self.allowed = {0: [None], 1: [None]}       # what the archive may contain; None: there is no archive

    def path(self, i, kind):
        p = os.path.join(self.dir, "op%d.zip" % i)
        if kind == "rel":
            os.chdir(self.dir)
            return "op%d.zip" % i
        if kind == "link":
            return os.path.join(self.root, "ln", "op%d.zip" % i)
        if kind == "pathlib":
            import pathlib
            return pathlib.Path(p)
        return p

    def arm(self, op):
        m = MODES.get(op["fault"], 0)
        rng = random.Random("err:%s" % op["seed"])
        e = rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES, errno.EDQUOT, errno.EROFS]) if op["fault"] in ("error", "readerr") else errno.ENOSPC
        fs.simfs_arm(self.root.encode() + b"/a", os.path.join(self.root, "shadow").encode(), op["at"] if m else 0, m, e)

    def power(self, rng):
        """The machine loses power: what was not synced is lost, in one of the ways file systems lose it."""
        for d in ("a", "tmp"):
            for f in sorted(os.listdir(os.path.join(self.root, d))):
                p = os.path.join(self.root, d, f)
                ino = os.stat(p).st_ino
                s = os.path.join(self.root, "shadow", str(ino))
                body = open(p, "rb").read()
                if os.path.exists(s):
                    new = open(s, "rb").read()
                    if new != body and rng.random() < 0.5:
                        continue
                elif ino in self.synced and self.synced[ino] == body:
                    continue
                else:
                    new = rng.choice([b"", body[:len(body) // 2], b"\0" * len(body), body[:-1], body])
                if new != body:
                    self.ctx.count("fault:power_lost_data")
                    with open(p, "wb") as o:
                        o.write(new)
        self.settle()

    def settle(self):
        """Everything on the disk is durable now."""
        for f in os.listdir(os.path.join(self.root, "shadow")):
            os.unlink(os.path.join(self.root, "shadow", f))
        self.synced = {}
        for f in os.listdir(self.dir):
            p = os.path.join(self.dir, f)
            self.synced[os.stat(p).st_ino] = open(p, "rb").read()

    def examine(self, i, what):
        """The archive i loads as one of the allowed contents."""
        p = os.path.join(self.dir, "op%d.zip" % i)
        if not os.path.lexists(p):
            if None not in self.allowed[i]:
                raise Violation("archive-lost", "%s: the archive is gone" % what)
            self.allowed[i] = [None]
            return
        if self.allowed[i] == [None]:
            raise Violation("archive-from-nowhere", "%s: an archive appeared" % what)
        try:
            r = load_zip(p)
        except Exception as e:
            raise Violation("archive-damaged", "%s: the archive (%d bytes) does not load: %s: %s" % (what, os.path.getsize(p), type(e).__name__, e))
        why = []
        for w in self.allowed[i]:
            if w is not None:
                y = matches(r, w)
                if y is None:
                    self.allowed[i] = [w]
                    return
                why.append(y)
        raise Violation("archive-wrong", "%s: what is loaded is none of the operators saved: %s" % (what, "; ".join(why)))


def execute(sc, ctx):
    w = World(ctx)
    old = tempfile.tempdir, os.getcwd()
    try:
        tempfile.tempdir = os.path.join(w.root, "tmp")
        w.settle()
        hit = False
        for k, op in enumerate(sc["ops"]):
            rng = random.Random("op:%s" % op["seed"])
            what = "step %d (%s of archive %d, fault %s at %d)" % (k, op["k"], op["file"], op["fault"], op["at"])
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                hit |= bool(step(w, op, rng, what))
            ctx.count("steps")
            ctx.count("op_" + op["k"])
            for i in (0, 1):
                w.examine(i, what)
        ctx.state(str(ctx.h), hit)
    finally:
        fs.simfs_off()
        tempfile.tempdir = old[0]
        os.chdir(old[1])
        shutil.rmtree(w.root)


def step(w, op, rng, what):
    i, ctx = op["file"], w.ctx
    p = w.path(i, op["path"])
    real = os.path.join(w.dir, "op%d.zip" % i)
    if op["k"] == "overwrite":
        # something else stands in the way: save_zip always overwrites it
        with open(real, "wb") as f:
            f.write(rng.choice([b"", b"not an archive", bytes(5000)]))
        w.settle()
        w.allowed[i] = [None]
        o, want = operator(rng)
        save_zip(p, o, save_basis=False)
        w.allowed[i] = [want]
        w.settle()
        return False
    if op["k"] == "torn":
        if os.path.exists(real):
            body = open(real, "rb").read()
            cut = rng.choice([0, 1, len(body) // 2, len(body) - 1, rng.randrange(len(body)), rng.randrange(len(body))])
            t = os.path.join(w.root, "tmp", "torn.zip")
            with open(t, "wb") as f:
                f.write(body[:cut])
            try:
                load_zip(t)
            except Exception:
                ctx.count("fault:truncated_archive")
                os.unlink(t)
                return True
            raise Violation("truncated-archive-accepted", "%s: %d of %d bytes load without an error" % (what, cut, len(body)))
        return False
    if op["k"] == "load":
        r = None
        cut = interrupt(op["at"] if op["fault"] == "interrupt" else 0)
        try:
            with cut:
                w.arm(op)
                r = load_zip(p)
        except Exception as e:
            fs.simfs_off()
            if not S.fired and w.allowed[i] != [None]:
                raise
        fs.simfs_off()
        if S.fired:
            ctx.count("fault:read_error")
        if cut.fired:
            ctx.count("fault:interrupt")
        if r is not None:
            if w.allowed[i] == [None]:
                raise Violation("archive-from-nowhere", "%s: loads although nothing was saved" % what)
            y = matches(r, w.allowed[i][0])
            if y is not None:
                raise Violation("archive-wrong", "%s: %s" % (what, y))
        return bool(S.fired or cut.fired)
    o, want = operator(rng)
    withb = want["basis"] is not None and rng.random() < 0.7
    want["withbasis"] = withb
    before = set(os.listdir(w.dir)) | set(os.listdir(os.path.join(w.root, "tmp")))
    dies = op["fault"] in ("crash", "power")
    raised = None
    cut = interrupt(op["at"] if op["fault"] == "interrupt" else 0)
    prior = w.allowed[i]
    if dies or op["fork"] and op["fault"] != "interrupt":
        pid = os.fork()
        if pid == 0:
            rc = 70
            try:
                w.arm(op)
                save_zip(p, o, save_basis=withb)
                rc = 0
            except BaseException:
                rc = 71
            finally:
                fs.simfs_off()
                os._exit(rc)
        rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        fs.simfs_off()
        if rc not in (0, 71, 77):
            raise Violation("process-died", "%s: the saving process ended with %s" % (what, rc))
        if rc == 71:
            raised = "exception"
        done = rc == 0
    else:
        done = False
        try:
            with cut:
                w.arm(op)
                save_zip(p, o, save_basis=withb)
                done = True
        except OSError as e:
            raised = e
        finally:
            fs.simfs_off()
    fired = bool(S.fired or cut.fired)
    if raised is not None and not fired:
        raise Violation("save-failed", "%s: raises %r although no fault was injected" % (what, raised))
    if fired:
        ctx.count("fault:" + {"error": "storage_error", "full": "disk_full", "short": "short_write", "crash": "process_death", "power": "power_loss", "interrupt": "interrupt"}[op["fault"]])
    if done:
        w.allowed[i] = [want] if not (fired and op["fault"] == "power") else prior + [want]
    else:
        w.allowed[i] = prior + [want]
        if op["fault"] in ("error", "full") and S.what != 4:
            left = (set(os.listdir(w.dir)) | set(os.listdir(os.path.join(w.root, "tmp")))) - before - {"op%d.zip" % i}
            if left:
                raise Violation("rubbish-left", "%s: a failed save_zip leaves %s behind" % (what, [x.split(".")[-1] for x in sorted(left)]))
    if op["fault"] == "power":
        if done:
            # the power fails after the call; whether the new name is durable already is up to the file system
            w.allowed[i] = [want]
        w.power(rng)
    else:
        # any later loss of power is of its own step
        w.settle()
    return fired

"""Runs a check: many seeded executions in worker processes, minimisation, replay files, evidence, known findings."""
import importlib
import json
import os
import random
import selectors
import subprocess
import sys
import tempfile
import time
from collections import Counter

from . import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")
STUCK = 150.0


class Worker:
    def __init__(self, name, tree, base, slot):
        self.slot = slot
        env = build.clean_env()
        env.update(PYTHONPATH=VERIF, PYTHONHASHSEED=str(1000 + slot % 8), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", MALLOC_PERTURB_=str([165, 1, 90, 254, 127, 17, 200, 66][slot % 8]),
                   MPLCONFIGDIR="/tmp", NUMBA_DISABLE_JIT="0")
        if build.CACHE != os.path.join(VERIF, ".cache"):
            env["VERIF_CACHE"] = build.CACHE
        if "\nPRELOAD = " in open(os.path.join(VERIF, "checks", name + ".py")).read():
            env["LD_PRELOAD"] = os.path.join(build.CACHE, "lib", "libsimfs.so")
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([build.PY, "-m", "sim.worker", name, tree, str(base)], cwd="/", env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err)
        self.buf = b""
        self.ready = False
        self.busy = None
        self.done = []
        self.t = time.time()

    def send(self, req):
        self.busy = req
        self.t = time.time()
        try:
            self.p.stdin.write((json.dumps(req) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            pass

    def tail(self):
        try:
            self.err.seek(0)
            return self.err.read()[-3000:].decode(errors="replace")
        except (OSError, ValueError):
            return ""

    def kill(self):
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass
        self.p.kill()
        rc = self.p.wait()
        self.err.close()
        return rc

    def recv(self, timeout):
        """One message, None on end of file, "stuck" on timeout."""
        end = time.time() + timeout
        sel = selectors.DefaultSelector()
        sel.register(self.p.stdout, selectors.EVENT_READ)
        while True:
            if b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                return json.loads(line)
            left = end - time.time()
            if left <= 0:
                return "stuck"
            if sel.select(left):
                data = os.read(self.p.stdout.fileno(), 1 << 20)
                if not data:
                    return None
                self.buf += data


def death(rc, tail):
    """Violation record for a worker that died."""
    if rc == 77:
        kind = "deadlock"
    elif rc == 78:
        kind = "no-progress"
    elif rc < 0:
        kind = "killed-by-signal-%d" % -rc
    else:
        kind = "exited-%d" % rc
    lines = [x for x in tail.split("\n") if x.strip()]
    return {"kind": kind, "msg": "the process executing the code under test died (%s): %s" % (kind, " | ".join(lines[-6:])[-1200:])}


class HarnessError(Exception):
    pass


class Check:
    def __init__(self, name, tier, base):
        self.name, self.tier, self.base = name, tier, base
        if "numpy" not in sys.modules:
            pass
        self.mod = load_meta(name)
        self.tree = None
        self.spare = None

    def build(self):
        need = self.mod.get("NEED")
        self.tree = build.tree(self.mod["TREE"], need)

    def fresh(self, slot=0):
        w = Worker(self.name, self.tree, self.base, slot)
        m = w.recv(120)
        if not isinstance(m, dict) or "ready" not in m:
            tail = w.tail()
            w.kill()
            raise HarnessError("worker did not start: %s\n%s" % (m, tail))
        return w

    def one(self, req, slot=0, timeout=STUCK * 2, worker=None):
        """Execute one request, in a fresh process unless a worker is given.  Returns (answer, worker or None)."""
        w = worker or self.fresh(slot)
        w.send(req)
        m = w.recv(timeout)
        if isinstance(m, dict):
            if worker is None:
                w.kill()
                w = None
            return m, w
        if m == "stuck":
            w.kill()
            return {"id": req["id"], "v": {"kind": "no-progress", "msg": "no answer within %d s" % timeout}, "scenario": req.get("scenario")}, None
        tail = w.tail_after()
        rc = w.kill()
        return {"id": req["id"], "v": death(rc, tail), "scenario": req.get("scenario")}, None

    # ------------------------------------------------------------------ exploration
    def explore(self, total, budget, nproc):
        t0 = time.time()
        res = {"executed": 0, "stats": Counter(), "hashes": set(), "nontrivial": set(), "viol": {}, "nviol": 0, "samples": [],
               "decisions": 0, "unreproduced": 0}
        ids = iter(range(total))
        sel = selectors.DefaultSelector()
        workers = []

        def start(slot):
            w = Worker(self.name, self.tree, self.base, slot)
            workers.append(w)
            sel.register(w.p.stdout, selectors.EVENT_READ, w)

        def feed(w):
            if time.time() - t0 > budget or len(res["viol"]) >= 4 or res["nviol"] >= 40:
                i = None
            else:
                i = next(ids, None)
            if i is None:
                drop(w)
                return
            w.send({"id": i, "tier": self.tier})

        def drop(w):
            sel.unregister(w.p.stdout)
            workers.remove(w)
            return w.kill()

        for s in range(min(nproc, total)):
            start(s)
        while workers:
            for key, _ in sel.select(1.0):
                w = key.data
                data = os.read(w.p.stdout.fileno(), 1 << 20)
                if not data:
                    tail = w.tail()
                    try:
                        rc = w.p.wait(10)
                    except subprocess.TimeoutExpired:
                        rc = None
                    req, done, slot = w.busy, list(w.done), w.slot
                    was_ready = w.ready
                    drop(w)
                    if not was_ready:
                        raise HarnessError("worker died at start: %s" % tail)
                    if req is not None:
                        self.crashed(res, req, done, slot, rc, tail)
                    if time.time() - t0 < budget:
                        start(slot)
                    continue
                w.buf += data
                while b"\n" in w.buf:
                    line, w.buf = w.buf.split(b"\n", 1)
                    m = json.loads(line)
                    if "harness" in m and not w.ready:
                        raise HarnessError(m["harness"])
                    if "ready" in m:
                        w.ready = True
                        feed(w)
                        break
                    self.account(res, m, w.slot, list(w.done))
                    w.done.append(w.busy["id"])
                    w.busy = None
                    feed(w)
                    break
            now = time.time()
            for w in list(workers):
                if w.busy is not None and now - w.t > STUCK:
                    req, done, slot = w.busy, list(w.done), w.slot
                    drop(w)
                    self.crashed(res, req, done, slot, None, "no answer within %d s" % STUCK)
                    if time.time() - t0 < budget:
                        start(slot)
                elif not w.ready and now - w.t > 300:
                    raise HarnessError("worker did not start")
        res["wall"] = time.time() - t0
        return res

    def account(self, res, m, slot, done):
        if "harness" in m:
            raise HarnessError("scenario %s: %s" % (m.get("id"), m["harness"]))
        res["executed"] += 1
        res["decisions"] += m.get("nd", 0)
        res["stats"].update(m["stats"])
        for h in m["hashes"]:
            res["hashes"].add(h)
        if m["nt"]:
            res["nontrivial"].add(m["hash"])
        if len(res["samples"]) < 4 and m["id"] % 7 == 3 or (not res["samples"] and m["id"] > 3):
            res["samples"].append({"seed_index": m["id"], "scenario": clip(m.get("scenario")), "execution_hash": "%016x" % m["hash"]})
        if "v" in m:
            self.violation(res, m, slot, done)

    def violation(self, res, m, slot, done):
        res["nviol"] += 1
        k = m["v"]["kind"]
        if k not in res["viol"]:
            res["viol"][k] = {"id": m["id"], "scenario": m["scenario"], "v": m["v"], "decisions": m.get("decisions"),
                              "native": m.get("native"), "log": m.get("log"), "slot": slot, "history": done, "n": 1}
        else:
            res["viol"][k]["n"] += 1

    def crashed(self, res, req, done, slot, rc, tail):
        """A worker died while executing req: reproduce it alone, then with what the process had executed before."""
        m, _ = self.one_gen(req["id"], slot)
        if "v" in m:
            self.violation(res, m, slot, [])
            return
        m, n = self.sequence(done + [req["id"]], slot)
        if m is not None:
            self.violation(res, m, slot, done[:n])
            return
        res["unreproduced"] += 1
        print("note: a worker ended (%s) in scenario %s; neither the scenario nor the sequence before it reproduces that: %s"
              % (rc, req["id"], tail[-300:]))

    def one_gen(self, i, slot):
        w = self.fresh(slot)
        sc = self.scenario(i)
        w.send({"id": i, "tier": self.tier, "scenario": sc})
        m = w.recv(STUCK * 2)
        return self.finish(w, m, i, sc)

    def finish(self, w, m, i, sc):
        if isinstance(m, dict):
            w.kill()
            m["scenario"] = sc
            return m, None
        if m == "stuck":
            w.kill()
            return {"id": i, "v": {"kind": "no-progress", "msg": "no answer within %d s" % (STUCK * 2)}, "scenario": sc}, None
        try:
            rc = w.p.wait(10)
        except subprocess.TimeoutExpired:
            rc = -9
        tail = w.tail()
        w.kill()
        return {"id": i, "v": death(rc, tail), "scenario": sc}, None

    def sequence(self, ids, slot):
        """The same scenarios, in the same order, in one fresh process."""
        w = self.fresh(slot)
        for n, i in enumerate(ids):
            w.send({"id": i, "tier": self.tier})
            m = w.recv(STUCK * 2)
            if not isinstance(m, dict):
                mm, _ = self.finish(w, m, i, self.scenario(i))
                mm["v"]["msg"] += " (after the scenarios %s in the same process)" % ids[:n][-20:]
                return mm, n
        w.kill()
        return None, 0

    def scenario(self, i):
        """Scenario i, generated in a process of its own (generation may import numpy only)."""
        code = ("import importlib,json,random,sys\nsys.path.insert(0,%r)\nm=importlib.import_module('checks.%s')\n"
                "print('\\n@@'+json.dumps(m.gen(random.Random('%%s:%%s:%%s'%%(m.ID,%r,%d)),%r)))"
                % (VERIF, self.name, str(self.base), i, self.tier))
        env = build.clean_env()
        env["PYTHONPATH"] = VERIF
        o = subprocess.run([build.PY, "-c", code], cwd="/", env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if o.returncode:
            raise HarnessError(o.stderr)
        return json.loads(o.stdout.rsplit("@@", 1)[1])

    # ------------------------------------------------------------------ minimisation
    def minimise(self, rec, budget):
        t0 = time.time()
        kind = rec["v"]["kind"]
        best = {"scenario": rec["scenario"], "decisions": None, "native": None, "v": rec["v"], "log": rec.get("log")}
        state = {"w": None, "n": 0}

        def attempt(sc, decisions, native):
            if time.time() - t0 > budget:
                return None
            state["n"] += 1
            if state["w"] is None:
                state["w"] = self.fresh(rec["slot"])
            w = state["w"]
            req = {"id": rec["id"], "tier": self.tier, "scenario": sc}
            if decisions is not None:
                req["decisions"] = decisions
            if native is not None:
                req["native"] = native
            w.send(req)
            m = w.recv(max(20.0, min(STUCK, budget)))
            if not isinstance(m, dict):
                state["w"] = None
                m, _ = self.finish(w, m, rec["id"], sc)
            if "v" in m and m["v"]["kind"] == kind:
                return m
            return None

        first = attempt(rec["scenario"], None, None)
        if first is None and not rec["history"]:
            # a violation that a fresh process does not repeat
            first = attempt(rec["scenario"], rec.get("decisions"), rec.get("native"))
            if first is None:
                if state["w"]:
                    state["w"].kill()
                return None, state["n"]
        elif first is None:
            if state["w"]:
                state["w"].kill()
            best["history"] = rec["history"]
            best["id"] = rec["id"]
            return best, state["n"]
        cur = first
        sc = rec["scenario"]
        changed = True
        while changed and time.time() - t0 < budget * 0.7:
            changed = False
            for cand in shrinks(sc, self.mod.get("SHRINK", {})):
                if time.time() - t0 > budget * 0.7:
                    break
                m = attempt(cand, None, None)
                if m is not None:
                    sc, cur, changed = cand, m, True
                    break
        best["scenario"], best["v"], best["log"] = sc, cur["v"], cur.get("log")
        # decisions of the simulator: keep as few disturbing ones as possible
        dec, nat = cur.get("decisions"), cur.get("native")
        if dec or nat:
            m = attempt(sc, dec, nat)
            if m is not None:
                if dec:
                    dec = ddmin(dec, lambda d: attempt(sc, d, nat), t0 + budget * 0.85, zero=True)
                if nat:
                    for k in range(len(nat)):
                        def test(t, k=k):
                            return attempt(sc, dec, nat[:k] + [t] + nat[k + 1:])
                        nat = nat[:k] + [ddmin(nat[k], test, t0 + budget)] + nat[k + 1:]
                best["decisions"], best["native"] = dec, nat
                m = attempt_final(self, rec, sc, dec, nat, kind)
                if m is None:
                    best["decisions"] = best["native"] = None
                else:
                    best["v"], best["log"] = m["v"], m.get("log")
        if state["w"]:
            state["w"].kill()
        return best, state["n"]


def attempt_final(check, rec, sc, dec, nat, kind):
    w = check.fresh(rec["slot"])
    req = {"id": rec["id"], "tier": check.tier, "scenario": sc}
    if dec is not None:
        req["decisions"] = dec
    if nat is not None:
        req["native"] = nat
    w.send(req)
    m = w.recv(STUCK)
    m, _ = check.finish(w, m, rec["id"], sc)
    return m if "v" in m and m["v"]["kind"] == kind else None


def shrinks(sc, spec):
    """Smaller scenarios: list fields lose chunks, integer fields shrink towards the minimum in spec."""
    for k, v in list(sc.items()):
        lo = spec.get(k)
        if lo is None:
            continue
        if isinstance(v, list):
            n = len(v)
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    w = v[:i] + v[i + size:]
                    if len(w) >= lo and len(w) < n:
                        yield dict(sc, **{k: w})
                size //= 2
            for i, e in enumerate(v):
                if isinstance(e, dict):
                    for e2 in shrinks(e, spec):
                        yield dict(sc, **{k: v[:i] + [e2] + v[i + 1:]})
        elif isinstance(v, bool):
            if v:
                yield dict(sc, **{k: False})
        elif isinstance(v, int):
            for w in sorted({lo, (lo + v) // 2, v - 1}):
                if lo <= w < v:
                    yield dict(sc, **{k: w})
        elif isinstance(v, dict):
            for e in shrinks(v, spec):
                yield dict(sc, **{k: e})


def ddmin(items, test, deadline, zero=False):
    items = list(items)
    size = max(1, len(items) // 2)
    while size >= 1 and time.time() < deadline:
        i = 0
        hit = False
        while i < len(items) and time.time() < deadline:
            if zero:
                if not any(items[i:i + size]):
                    i += size
                    continue
                cand = items[:i] + [0] * len(items[i:i + size]) + items[i + size:]
            else:
                cand = items[:i] + items[i + size:]
            if test(cand) is not None:
                items = cand
                hit = True
                if zero:
                    i += size
            else:
                i += size
        if size == 1 and not hit:
            break
        size = size // 2 if size > 1 else (1 if hit and not zero else 0)
    if zero:
        while items and items[-1] == 0:
            items.pop()
    return items


def clip(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def load_meta(name):
    """The check module's constants, read in a process of its own (so that no numpy is loaded here)."""
    code = ("import importlib,json,sys\nsys.path.insert(0,%r)\nm=importlib.import_module('checks.%s')\n"
            "print('\\n@@'+json.dumps({k:getattr(m,k) for k in dir(m) if k.isupper() and k in "
            "('ID','TREE','NEED','SHRINK','QUICK','THOROUGH','RULE','REAL','STUB','NPROC')}))" % (VERIF, name))
    env = build.clean_env()
    env["PYTHONPATH"] = VERIF
    o = subprocess.run([build.PY, "-c", code], cwd="/", env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if o.returncode:
        raise HarnessError(o.stderr)
    return json.loads(o.stdout.rsplit("@@", 1)[1])


def known_findings(pid):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN)) if k.get("property") == pid and k.get("status") == "known"]


def main(name, tier, base):
    t0 = time.time()
    try:
        c = Check(name, tier, base)
        pid = c.mod["ID"]
        c.build()
        q = c.mod["QUICK"] if tier == "quick" else c.mod["THOROUGH"]
        total, budget = q
        mult = float(os.environ.get("VERIF_MULT", "1"))
        total = int(total * mult)
        known = known_findings(pid)
        res = c.explore(total, budget, c.mod.get("NPROC", 8))
        lines, replays = [], []
        for k in known:
            # each listed finding is replayed, so that the line says what is true of this tree
            m, _ = c.finish_known(k) if hasattr(c, "finish_known") else known_run(c, k)
            if "v" in m and m["v"]["kind"] == k["kind"]:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        kinds = {k["kind"] for k in known}
        unrepro = 0
        for kind, rec in sorted(res["viol"].items()):
            if kind in kinds:
                continue
            best, n = c.minimise(rec, 60 if tier == "quick" else 300)
            if best is None:
                unrepro += 1
                print("note: violation %s of scenario %d was not repeated by a fresh process: %s" % (kind, rec["id"], rec["v"]["msg"][:300]))
                continue
            d = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%d.json" % (pid, "".join(ch if ch.isalnum() else "_" for ch in kind)[:60], rec["id"]))
            with open(path, "w") as f:
                json.dump({"property": pid, "check": name, "tier": tier, "base": base, "id": rec["id"], "slot": rec["slot"], "kind": kind,
                           "seen": rec["n"], "minimisation_runs": n, **best}, f, indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            print("violated: %s\n  %s" % (kind, best["v"]["msg"][:1500]))
        wall = time.time() - t0
        cov = {
            "evaluations": res["executed"], "distinct_nontrivial": len(res["nontrivial"]), "rule": c.mod["RULE"],
            "samples": res["samples"] or [{"note": "no sample"}],
            "scenarios_planned": total, "distinct_interleavings_or_states": len(res["hashes"]),
            "simulated_runs_per_hour": int(res["executed"] / max(res["wall"], 1e-3) * 3600),
            "simulator_decisions": res["decisions"], "counters": dict(sorted(res["stats"].items())),
            "faults_injected": {k[6:]: v for k, v in sorted(res["stats"].items()) if k.startswith("fault:")},
            "simulated_time": "%d simulated scheduling steps" % (res["stats"].get("omp_steps", 0) + res["stats"].get("steps", 0)),
            "real_components": c.mod["REAL"], "stub_components": c.mod["STUB"],
            "unreproduced": res["unreproduced"] + unrepro, "violations": len(lines),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": base, "level": "exploration", "coverage": cov, "wall_s": round(wall, 1)}, f, indent=1)
        print("%s: %d simulated executions (%d distinct non-trivial, %d distinct interleavings/states) in %.1f s, %d violations"
              % (pid, res["executed"], len(res["nontrivial"]), len(res["hashes"]), wall, len(lines)))
        for l in lines:
            print(l)
        return 1 if lines else 0
    except (HarnessError, build.BuildError) as e:
        print("HARNESS-ERROR %s" % e)
        return 2


def known_run(c, k):
    w = c.fresh(k.get("slot", 0))
    w.send({"id": -1, "tier": c.tier, "scenario": k["scenario"]})
    return c.finish(w, w.recv(STUCK), -1, k["scenario"])


def replay(path):
    r = json.load(open(path))
    c = Check(r["check"], r["tier"], r["base"])
    c.build()
    if r.get("history"):
        m, _ = c.sequence(r["history"] + [r["id"]], r["slot"])
        m = m or {}
    else:
        m = attempt_final(c, r, r["scenario"], r.get("decisions"), r.get("native"), r["kind"]) or {}
    if "v" in m:
        print("reproduced: %s\n  %s" % (m["v"]["kind"], m["v"]["msg"]))
        for l in m.get("log") or []:
            print("  | %s" % (l,))
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("not reproduced on this tree")
    return 0

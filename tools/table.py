#!/usr/bin/python3
"""The single source of properties.jsonl and MANIFEST.json: python3 tools/table.py rewrites both."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GC = "quspin/basis/basis_general/_basis_general_core/source/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, check=None, tech="", note="", na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, check=check,
                  tech=tech, note=note, na=na))


prop("P01", "Sparse matrix-vector products are exact for every thread team and schedule",
     "For every matrix format (csr, csc, dia, dense), index and value dtype, operand memory layout and scalar a, the products returned by "
     "quspin.tools.matvec (matvec, get_matvec_function) and by hamiltonian.dot equal a*A*x, added to the old contents of out or replacing them as "
     "overwrite_out says, whatever number of OpenMP threads is requested or granted and however they interleave. Only the elements of out are written "
     "and out itself is returned. Operands that do not fit together are refused before anything is written.",
     ["schedules", "inputs", "configurations"],
     "all matrices, layouts, scalars, in-place modes, numbers of OpenMP threads requested and granted, and interleavings of those threads",
     "The tests run the non-OpenMP build (or one uncontrolled schedule) on contiguous vectors; races, carry rows between threads, partial teams and "
     "strided outputs never occur.",
     ["quspin/tools/matvec/matvec_core.py", "quspin/tools/matvec/_oputils.pyx", "quspin/tools/matvec/_oputils/csr.h", "quspin/tools/matvec/_oputils/csc.h",
      "quspin/tools/matvec/_oputils/dia.h", "quspin/tools/matvec/_oputils/csrmv_merge.h", "quspin/operators/hamiltonian_core.py"],
     ["merge-path row splitting with carry fix-up", "atomic accumulation in csc", "work sharing per diagonal in dia", "stride dispatch"],
     check="p01", tech="deterministic simulation of the OpenMP threads, seeded schedules and team shortfalls, dense reference model",
     note="Seeded sampling. Preemption happens at every instrumented memory access and OpenMP call; sequentially consistent memory is assumed.")

prop("P02", "exp(aA)v is independent of threads, schedule, history and work arrays",
     "expm_multiply_parallel(A, a).dot(v) returns exp(a*A)v to the accuracy of its dtype for every matrix format, dtype and scalar a, for any number of "
     "OpenMP threads requested or granted, any interleaving and any state of the random generator used by the norm estimate. A result never depends on "
     "earlier set_a/dot calls on the object or on the contents of a supplied work array, and v and A are left alone unless overwrite_v is set, in "
     "which case v itself holds and is the result.",
     ["schedules", "inputs", "histories"],
     "all matrices, scalars and dtypes, histories of set_a/dot calls with shared work arrays, thread teams and interleavings",
     "The tests call dot once per object in a build without threads; the barrier and early-exit protocol between threads is never exercised.",
     ["quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py", "quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_wrapper.pyx",
      "quspin/tools/expm_multiply_parallel_core/source/expm_multiply_parallel.h", "quspin/tools/expm_multiply_parallel_core/source/csr_utils.h"],
     ["barriers around the shared convergence test", "per-thread vector ranges", "repartitioning in set_a"],
     check="p02", tech="deterministic simulation of the OpenMP threads over call histories, dense expm reference",
     note="Seeded sampling; accuracy compared at 1e-9 (double) and 2e-4 (single) relative to the size of the exponential; seeded norm-estimator randomness.")


def emit():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
    checks = [{"property": p["id"], "quick_cmd": "./check %s quick" % p["check"], "thorough_cmd": "./check %s thorough" % p["check"],
               "technique": p["tech"], "level": "exploration", "level_note": p["note"]} for p in P if p["check"]]
    na = [{"property": p["id"], "reason": p["na"] or "no check has been built yet"} for p in P if not p["check"]]
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./check --build", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    try:
        import table_more
        table_more.add(prop)
    except ImportError:
        pass
    emit()

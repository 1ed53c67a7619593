#!/usr/bin/python3
"""The single source of known_findings.json: python3 tools/known.py rewrites it."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property, words of the commit subject in /repo, what failed
FIXED = [
    ("P01", "matvec ignored its arguments", "tools.matvec.matvec(A, x, out=..., overwrite_out=..., a=...) ignored all three arguments"),
    ("P01", "csr_matvecs ignored", "csr matrix times several vectors wrote a column-major output with the strides of a row-major one"),
    ("P01", "wrote through an out array", "an out array of the wrong dtype or shape was written through, and the imaginary part of a was dropped for real operands"),
    ("P02", "set_a failed", "expm_multiply_parallel.set_a(a, dtype=...) raised"),
    ("P02", "fewer threads than", "with fewer threads granted than omp_get_max_threads() part of the vector was never computed"),
    ("P03", "several particle numbers kept only", "spinless_fermion_basis_general(Nf=[1,2]) contained only the states of the last number"),
    ("P03", "failed for several magnetisations", "spin_basis_general(S='1', Nup=[...]) raised"),
    ("P03", "not sorted for more than 64 bits", "basis of more than 64 bits and several sectors was unsorted, so lookups missed states"),
    ("P03", "an exact Ns_block_est was refused", "sequential construction raised although Ns_block_est was exactly the number of states"),
    ("P03", "ignored block_order and Ns_block_est", "boson_basis_general ignored both arguments"),
    ("P03", "first state of an empty basis", "make_basis_blocks read out of bounds when no state survives the symmetries"),
    ("P03", "several identity maps", "with two or more identity maps among the symmetries another map was dropped"),
    ("P04", "did not pass its own basis", "spinful_fermion_basis_general.Op_shift_sector raised"),
    ("P04", "group element left over", "Op_bra_ket multiplied matrix elements with the phase of the group element of another state"),
    ("P04", "ignored reduce_output", "spin_basis_general.Op_bra_ket(reduce_output=False) dropped elements for S>1/2"),
    ("P04", "fell through to 'n'", "boson_basis_general: operator 'z' acted as z*n"),
    ("P04", "led back to the same representative", "Op_shift_sector dropped the phase and fermion sign whenever the operator maps a representative into its own orbit"),
    ("P04", "rounding residue for the norm", "Op_bra_ket returned elements of order 1e-7 to states outside the sector; get_amp likewise"),
    ("P04", "bit_count of all bits", "Op_bra_ket of a fermion or hard-core basis with 32 or 64 sites and fixed particle number returned nothing off the diagonal"),
    ("P04", "more than 255 bits overflowed", "Op_bra_ket with more than 255 particles returned nothing off the diagonal"),
]
KNOWN = []


def main():
    import sys
    sys.path.insert(0, os.path.join(V, "tools"))
    try:
        import known_more
        FIXED.extend(known_more.FIXED)
        KNOWN.extend(known_more.KNOWN)
    except ImportError:
        pass
    log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()]
    out = list(KNOWN)
    for p, words, what in FIXED:
        c = [h for h, s in log if s.startswith("fix:") and words in s]
        if len(c) != 1:
            # subjects were worded differently: match loosely
            raise SystemExit("no single commit for %r: %s" % (words, c))
        out.append({"property": p, "status": "fixed", "commit": c[0], "what": what, "entry": "fixed: property=%s %s %s" % (p, c[0], what)})
    with open(os.path.join(V, "known_findings.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()

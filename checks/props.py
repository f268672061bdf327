"""Per-property configuration of the checks."""
TRUSTED = [
    'clang 18 front end and -O2 optimiser (source -> LLVM IR) and the IR semantics implemented in engine/',
    'engine/poly.py + engine/algebra.py (exact rational-function normal form), z3 4.x / cvc5 for inequalities and path feasibility',
    'the specification text in contracts/ and include/vc.hpp',
]
COMMON_ASSUMPTIONS = [
    'double arithmetic is treated as exact real arithmetic; double literals within 1 ulp of p/q (q<=1000) denote p/q',
    'divisions are by non-zero values on the stated domain (identities are between rational functions)',
    'OpenMP pragmas are off and Eigen vectorisation is off in the verified build (same source, scalar code)',
    'regularisation constants below 1e-40 (verySmallReal = 1e-200 and its fourth root) are identified with 0 when added to or compared with symbolic values',
    'allocation never fails; text/stream output has no effect on the checked state',
]
PROPS = {
    'P02': dict(), 'P03': dict(), 'P04': dict(), 'P05': dict(), 'P06': dict(), 'P07': dict(), 'P08': dict(), 'P09': dict(), 'P10': dict(), 'P11': dict(), 'P12': dict(),
    'P19': dict(), 'P20': dict(), 'P21': dict(), 'P22': dict(), 'P23': dict(), 'P17': dict(flags=['-fno-access-control']), 'P24': dict(flags=['-fno-access-control']), 'P25': dict(),
    'P13': dict(), 'P14': dict(), 'P15': dict(), 'P16': dict(), 'P18': dict(),
    'P01': dict(slow=['diff_Hex27', 'diff_Pyramid14']),
}

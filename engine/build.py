"""Compile a contract harness against /repo's current sources: LLVM IR for the verifier, native for replay."""
import os
import subprocess

REPO = os.environ.get('VC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = ['-DDNDS_USE_OMP', '-DFMT_SHARED', '-DNINSERT', '-D__DNDS_REALLY_COMPILING__', '-I/usr/include/superlu-dist',
       '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
       '-I/usr/include/hdf5/openmpi', '-I/usr/include/eigen3', '-I/usr/include/argparse', '-I/opt/vp/cmake/none',
       '-I/opt/vp/cmake/pybind11/include', '-I/opt/vp/cmake/fmt/include', '-I%s/src' % REPO,
       '-I%s/include' % VERIF, '-I%s' % REPO, '-I%s/include/stub' % VERIF, '-std=c++17', '-UNDEBUG', '-w']


class CompileError(Exception):
    pass


def run(cmd, timeout=600):
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if r.returncode:
        raise CompileError(' '.join(cmd) + '\n' + r.stderr[-6000:])
    return r


IRFLAGS = ['-O2', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-math-errno',
           '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_DONT_PARALLELIZE', '-DEIGEN_NO_CPUID', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-g0', '-S', '-emit-llvm', '-fno-inline-functions' if False else '-fno-unroll-loops']


def ir(src, out, extra=()):
    run(['clang++'] + INC + list(IRFLAGS) + list(extra) + [src, '-o', out])
    return out


def native(src, out, extra=()):
    run(['clang++'] + INC + ['-O1', '-g0', '-fsanitize=address', '-fno-omit-frame-pointer', '-ffp-contract=off', '-DEIGEN_DONT_PARALLELIZE', '-rdynamic'] + list(extra) +
        [src, os.path.join(VERIF, 'include', 'vc_native.cpp'), '-o', out, '-L/opt/vp/cmake/fmt', '-ldl', '-lfmt',
         '-lmpi', '-L/usr/lib/x86_64-linux-gnu/openmpi/lib'])
    return out

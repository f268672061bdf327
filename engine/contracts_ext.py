"""Assumed contracts of library dependencies (MPI, std algorithms, ...) -- part of the trusted base."""


def install(eng, H):
    pass

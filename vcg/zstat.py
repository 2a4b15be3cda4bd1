"""counts z3 queries and the time they take"""
import time, z3
N, S = [0], [0.0]
_check = z3.Solver.check


def check(self, *a):
    t = time.time()
    try:
        return _check(self, *a)
    finally:
        N[0] += 1
        S[0] += time.time() - t


z3.Solver.check = check

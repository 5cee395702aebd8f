"""Specification algebra: the Clifford algebra Cl(3,0) written from its axioms (e_i e_i = 1, e_i e_j = -e_j e_i), over any ring.

Values are lists of the 8 components [s, e1, e2, e3, e23, e31, e12, e123].  None of this is derived from the library's code:
the product table is computed from the anticommutation rules below.
"""
from . import api

# each basis blade as (sign, sorted generators) of the documented name
BLADES = [(1, ()), (1, (1,)), (1, (2,)), (1, (3,)), (1, (2, 3)), (-1, (1, 3)), (1, (1, 2)), (1, (1, 2, 3))]   # e31 = -e13
IDX = {g: (i, s) for i, (s, g) in enumerate(BLADES)}
GRADE = [0, 1, 1, 1, 2, 2, 2, 3]


def _mulgen(a, b):
    """product of two generator words, reduced to a sorted word with a sign"""
    w = list(a) + list(b)
    s = 1
    done = False
    while not done:
        done = True
        for i in range(len(w) - 1):
            if w[i] == w[i + 1]:
                del w[i:i + 2]
                done = False
                break
            if w[i] > w[i + 1]:
                w[i], w[i + 1] = w[i + 1], w[i]
                s = -s
                done = False
                break
    return s, tuple(w)


TABLE = []     # (i, j, k, sign): e_i e_j = sign e_k
for _i in range(8):
    for _j in range(8):
        _s, _w = _mulgen(BLADES[_i][1], BLADES[_j][1])
        _k, _sk = IDX[_w]
        TABLE.append((_i, _j, _k, BLADES[_i][0] * BLADES[_j][0] * _s * _sk))


def lift(t, comps, zero):
    r = [zero] * 8
    for i, c in zip(api.T[t][1], comps):
        r[i] = c
    return r


def drop(t, mv):
    return [mv[i] for i in api.T[t][1]]


def _z(x):
    """structurally zero"""
    return not x if not isinstance(x, (int, float)) else x == 0


def gp(a, b, zero):
    r = [zero] * 8
    for i, j, k, s in TABLE:
        if _z(a[i]) or _z(b[j]):
            continue
        p = a[i] * b[j]
        r[k] = r[k] + p if s > 0 else r[k] - p
    return r


def flip(a, grades):
    return [-x if GRADE[i] in grades else x for i, x in enumerate(a)]


def neg(a):
    return [-x for x in a]


def rev(a):
    return flip(a, (2, 3))


def odd(a):
    return flip(a, (1, 3))


def dirv(a):
    return flip(a, (1, 2))


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def scale(c, a):
    return [c * x if not _z(x) else x for x in a]


def unit(i, zero, one):
    r = [zero] * 8
    r[i] = one
    return r


def dual(a, zero, one):
    return gp(a, unit(7, zero, one), zero)


def magsq(a, zero):
    r = zero
    for x in a:
        if not _z(x):
            r = r + x * x
    return r

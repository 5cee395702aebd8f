"""Bit-vector translation of integer conditions (indices, digit counts) for feasibility checks."""
import z3
from .dag import N


def tr_bool(n, c):
    if n.id in c:
        return c[n.id]
    if n.op == "true":
        r = z3.BoolVal(True)
    elif n.op == "false":
        r = z3.BoolVal(False)
    elif n.op == "not":
        r = z3.Not(tr_bool(n.a[0], c))
    elif n.op == "and":
        r = z3.And(tr_bool(n.a[0], c), tr_bool(n.a[1], c))
    elif n.op == "or":
        r = z3.Or(tr_bool(n.a[0], c), tr_bool(n.a[1], c))
    elif n.op == "xor":
        r = z3.Xor(tr_bool(n.a[0], c), tr_bool(n.a[1], c))
    elif n.op == "ite":
        r = z3.If(tr_bool(n.a[0], c), tr_bool(n.a[1], c), tr_bool(n.a[2], c))
    elif n.op == "icmp":
        p, a, b = n.a
        x, y = tr_int(a, c), tr_int(b, c)
        r = {"eq": lambda: x == y, "ugt": lambda: z3.UGT(x, y), "sgt": lambda: x > y}[p]()
    else:
        r = z3.Bool(f"b{n.id}")
    c[n.id] = r
    return r


def tr_int(n, c):
    if n.id in c:
        return c[n.id]
    w = n.s[1]
    if n.op == "iconst":
        r = z3.BitVecVal(n.a[0], w)
    elif n.op == "ibin":
        o, a, b = n.a
        x, y = tr_int(a, c), tr_int(b, c)
        r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y,
             "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y,
             "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y), "sdiv": lambda: x / y,
             "srem": lambda: z3.SRem(x, y)}[o]()
    elif n.op == "icast":
        o, a = n.a
        x = tr_int(a, c)
        aw = a.s[1]
        if o == "trunc":
            r = z3.Extract(w - 1, 0, x)
        elif o == "zext":
            r = z3.ZeroExt(w - aw, x)
        else:
            r = z3.SignExt(w - aw, x)
    elif n.op == "zextb":
        r = z3.If(tr_bool(n.a[0], c), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    elif n.op == "ite":
        r = z3.If(tr_bool(n.a[0], c), tr_int(n.a[1], c), tr_int(n.a[2], c))
    else:
        r = z3.BitVec(f"i{n.id}", w)
    c[n.id] = r
    return r

"""Reference values sent along with a trace as certificates: the specification
checks them against its own definitions before using them."""
import numpy as np

from . import enc


def symmetric(W):
    return (W + W.T) / 2


def wdegree(W):
    return (W.sum(0) + W.sum(1)) / 2


def laplacian(W, lt):
    W = np.asarray(W, dtype=float)
    S, d = symmetric(W), wdegree(W)
    L = np.diag(d) - S
    if lt == "combinatorial":
        return L
    with np.errstate(divide="ignore"):
        r = np.where(d > 0, 1 / np.sqrt(d), 0)
    L = np.diag((d > 0).astype(float)) - r[:, None] * S * r[None, :]
    return L


def bounds(W):
    S, d = symmetric(W), wdegree(W)
    i, j = np.nonzero(S)
    with np.errstate(all="ignore"):
        m = np.where(d > 0, d + S.dot(d) / d, 0)
    return min(len(W) * W.max(), 2 * d.max(), (d[i] + d[j]).max(), m.max())


def n_components(S):
    n = len(S)
    seen, c = set(), 0
    for i in range(n):
        if i in seen:
            continue
        c += 1
        todo = [i]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            todo += [j for j in range(n) if S[k, j] or S[j, k]]
    return c


def certificate(W, lt):
    e, U = np.linalg.eigh(laplacian(W, lt))
    return dict(e=enc.arr(e), U=enc.arr(U))

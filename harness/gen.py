"""Inputs: weight matrices, storage formats, graph objects, and things to do to
graphs between two observations."""
import json
import os

import numpy as np
from scipy import sparse


def model_graphs(workdir, name):
    """The graphs emitted by a GraphSpace model, as saved by use_model."""
    with open(os.path.join(workdir, "graphs-%s.json" % name)) as fh:
        return [np.array(w, dtype=float) for w in json.load(fh)]


def save_graphs(m, res, workdir):
    graphs = sorted(json.loads(p[2:]) for p in res["prints"] if p.startswith("G "))
    with open(os.path.join(workdir, "graphs-%s.json" % m["cfg"]), "w") as fh:
        json.dump(graphs, fh)


def random_weights(rng, n, directed=False, loops=False, density=0.5, unit=1 / 8,
                   kmax=16, isolated=False, binary=False):
    """A random weight matrix, with weights multiples of unit (exact in 1e-6)."""
    W = np.triu(rng.random((n, n)) < density, 1)
    V = rng.integers(1, kmax + 1, (n, n)) * unit
    if binary:
        V = np.ones((n, n))
    if directed:
        W = (rng.random((n, n)) < density)
        np.fill_diagonal(W, False)
        W = W * V
    else:
        W = W * V
        W = W + W.T
    if loops:
        k = rng.random(n) < 0.5
        W = W + np.diag(k * V.diagonal())
    if isolated and n > 1:
        i = rng.integers(n)
        W[i] = 0
        W[:, i] = 0
    return W


def connected_weights(rng, n, **kw):
    """As random_weights, undirected and connected (a random tree is added)."""
    W = random_weights(rng, n, **kw)
    unit = kw.get("unit", 1 / 8)
    perm = rng.permutation(n)
    for i in range(1, n):
        a, b = perm[i], perm[rng.integers(i)]
        if W[a, b] == 0:
            W[a, b] = W[b, a] = 1.0 if kw.get("binary") else rng.integers(1, 9) * unit
    return W


FORMATS = ["dense", "list", "csr", "csc", "coo", "coo_dup", "lil", "dok", "bsr",
           "dia", "csr_zeros", "csr_unsorted", "csr_array", "coo_array", "matrix",
           "fortran", "view"]


def as_format(W, fmt, rng=None):
    """The same matrix in another container or storage."""
    W = np.asarray(W)
    if fmt == "dense":
        return W.copy()
    if fmt == "list":
        return W.tolist()
    if fmt == "matrix":
        return np.matrix(W)
    if fmt == "fortran":
        return np.asfortranarray(W)
    if fmt == "view":
        big = np.zeros((2 * len(W), 2 * len(W)), dtype=W.dtype)
        big[::2, ::2] = W
        return big[::2, ::2]
    if fmt == "coo_dup":
        # every entry split in two halves if it can be
        A = sparse.coo_matrix(W)
        if A.dtype.kind == "f":
            h = A.data / 2
            return sparse.coo_matrix((np.concatenate([h, A.data - h]),
                                      (np.concatenate([A.row, A.row]),
                                       np.concatenate([A.col, A.col]))), shape=A.shape)
        return A
    if fmt == "csr_zeros":
        A = sparse.csr_matrix(np.ones_like(W))
        A.data[:] = W.ravel()
        return A
    if fmt == "csr_unsorted":
        A = sparse.csr_matrix(W)
        for i in range(A.shape[0]):
            s = slice(A.indptr[i], A.indptr[i + 1])
            A.indices[s] = A.indices[s][::-1].copy()
            A.data[s] = A.data[s][::-1].copy()
        A.has_sorted_indices = False
        return A
    if fmt == "csr_array":
        return sparse.csr_array(W)
    if fmt == "coo_array":
        return sparse.coo_array(W)
    return getattr(sparse, fmt + "_matrix")(W)


def perturbations(G, names=None):
    """Things to do to a graph which must not change what it is."""
    from pygsp import features, filters, graphs, learning, reduction, utils
    n = G.n_vertices
    x = np.arange(n, dtype=float)
    half = np.arange(n) % 2 == 0

    def switch():
        t = G.lap_type
        G.compute_laplacian("normalized" if t == "combinatorial" else "combinatorial")
        G.compute_laplacian(t)

    def bad():
        for f in (lambda: G.compute_laplacian("x"), lambda: G.estimate_lmax("x"),
                  lambda: G.grad(np.ones(n + 1)), lambda: G.set_coordinates("x")):
            try:
                f()
            except Exception:
                pass

    ops = dict(
        switch=switch, bad=bad,
        fourier=lambda: G.compute_fourier_basis(),
        bounds=lambda: G.estimate_lmax("bounds"),
        lanczos=lambda: G.estimate_lmax("lanczos"),
        diff=lambda: G.compute_differential_operator(),
        grad=lambda: G.div(G.grad(x)),
        energy=lambda: G.dirichlet_energy(x),
        gft=lambda: G.igft(G.gft(x)),
        connected=lambda: G.is_connected(),
        directed=lambda: G.is_directed(),
        edges=lambda: G.get_edge_list(),
        exact=lambda: filters.Heat(G, 3).filter(x, method="exact"),
        cheby=lambda: filters.Heat(G, 3).filter(x, order=5),
        nx=lambda: G.to_networkx(),
        components=lambda: G.extract_components(),
        subgraph=lambda: G.subgraph(list(range(n // 2 + 1))).compute_laplacian("normalized"),
        line=lambda: graphs.LineGraph(G),
        signal=lambda: G.set_signal(x, "s"),
        layout=lambda: G.set_coordinates("ring2D"),
        reads=lambda: (G.A, G.d, G.dw, G.W, G.L),
        repr=lambda: repr(G),
        learn=lambda: (learning.regression_tikhonov(G, x, half, .7), learning.regression_tikhonov(G, x, half)),
        classes=lambda: (learning.classification_tikhonov(G, x.astype(int) % 3, half, .3),
                         learning.classification_tikhonov_simplex(G, x.astype(int) % 3, half, .3, maxit=3, verbosity="NONE")),
        interpolate=lambda: reduction.interpolate(G, x[half], np.nonzero(half)[0], order=5, reg_eps=.3),
        levels=lambda: reduction.graph_multiresolution(G, 1, sparsify=False, compute_full_eigen=True),
        sparsify=lambda: (reduction.graph_sparsify(G, .9, maxiter=1, seed=0), reduction.kron_reduction(G, np.nonzero(half)[0])),
        features=lambda: (features.compute_avg_adj_deg(G), features.compute_spectrogram(G, M=3, method="exact")),
        distance=lambda: utils.resistance_distance(G),
    )
    return ops if names is None else {k: ops[k] for k in names}


def perturb(G, rng, k, exclude=()):
    """Do k random such things (errors are ignored: not their point)."""
    ops = perturbations(G)
    names = [o for o in ops if o not in exclude]
    for name in rng.permutation(names)[:k]:
        try:
            ops[name]()
        except Exception:
            pass

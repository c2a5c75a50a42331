#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))
g = "pygsp/graphs/"; f = "pygsp/filters/"
p("C01", "Cached spectral quantities stay coherent over any history of calls",
  "Whatever sequence of public calls was made on a graph (switching the Laplacian type, estimating the largest eigenvalue with any method, computing a full or partial Fourier basis, computing the differential operator, filtering, failing calls), the Laplacian, eigenvalues, Fourier basis, coherence, largest eigenvalue and differential operator that can then be read all belong to the Laplacian type currently in force. The largest eigenvalue read is the one of the last estimation that succeeded (an estimation with the method already in force changes nothing), a partial basis is never served where a full one is needed, and a failed call leaves all of it unchanged.",
  ["histories"], "All histories of the spectral calls (compute_laplacian, estimate_lmax, compute_fourier_basis, compute_differential_operator, reads, filtering) on weighted, unweighted, directed, disconnected graphs.",
  "Tests read one or two quantities after one call; staleness appears only after particular interleavings of three or more calls.",
  [g+"graph.py", g+"fourier.py", g+"difference.py", f+"filter.py"],
  [("cache invalidation when the Laplacian type changes", g+"graph.py:compute_laplacian"), ("lmax memo", g+"graph.py:estimate_lmax"), ("Fourier memo", g+"fourier.py:compute_fourier_basis"), ("lazy reads", g+"fourier.py:_check_fourier_properties")],
  [("lap_type/L", "Laplacian in force", g+"graph.py"), ("lmax and its method", "memoized estimate", g+"graph.py"), ("U,e,coherence", "memoized Fourier basis", g+"fourier.py"), ("D", "memoized differential operator", g+"difference.py")],
  ["G.L, G.lap_type, G.lmax, G.U, G.e, G.coherence, G.D, Filter.filter"])
p("C02", "All views of a graph agree with the adjacency matrix it was built from",
  "For every non-negative square adjacency matrix, dense or sparse, of any numeric type and storage (explicit zeros, duplicate entries, unsorted indices), directed or not, with or without self-loops, the weights, binary adjacency, number of vertices and edges, degrees, weighted degrees, edge list, directedness, weightedness and self-loop flags all describe exactly that matrix. Undirected edges and self-loops are counted and listed once, directed edges once per direction, and degrees of directed graphs are the mean of in- and out-degrees. They read the same at any time, whatever was computed on the graph before.",
  ["inputs", "histories"], "All square non-negative matrices x input formats x orders of reads and computations in between.",
  "Tests check one or two hand-written matrices and one read order.",
  [g+"graph.py"], [("construction", g+"graph.py:Graph.__init__"), ("A, d, dw memos", g+"graph.py:A,d,dw"), ("edge enumeration", g+"graph.py:get_edge_list"), ("flags", g+"graph.py:is_directed,is_weighted,has_loops")])
p("C03", "Laplacians match their definition for every graph",
  "The combinatorial Laplacian is the diagonal matrix of weighted degrees minus the (symmetrized by averaging, if the graph is directed) weights, and the normalized Laplacian is that operator scaled by the inverse square roots of the weighted degrees on both sides, with zero rows and columns for isolated vertices. Both are symmetric, the combinatorial one has zero row sums and is not affected by self-loops, and computing one after the other, in any order and any number of times, gives the same result as on a fresh graph.",
  ["inputs", "histories"], "All non-negative adjacency matrices x both Laplacian types x switching sequences.",
  "Tests compare against one 3x3 example per case.",
  [g+"graph.py", "pygsp/utils.py"], [("Laplacian construction", g+"graph.py:compute_laplacian"), ("symmetrization of directed graphs", "pygsp/utils.py:symmetrize")])
p("C04", "Differential operator, gradient, divergence and Dirichlet energy agree",
  "For every graph and both Laplacian types, the differential operator has one column per edge of the edge list, in that order, and times its transpose gives the Laplacian. The gradient of a signal is, edge by edge, the difference of its (degree-normalized, if the Laplacian is) end values times the square root of the weight (divided by the square root of two for directed graphs), the divergence is the transposed operator, and the Dirichlet energy of any signal equals the squared norm of its gradient, the quadratic form of the Laplacian and half the weighted sum of squared differences. This holds for one-dimensional and multi-dimensional signals.",
  ["inputs"], "All non-negative adjacency matrices x Laplacian types x signals (1-D, 2-D, lists).",
  "Tests check D D' = L on a handful of graphs and never check gradients edge by edge on directed or normalized ones.",
  [g+"difference.py", g+"graph.py"], [("differential operator", g+"difference.py:compute_differential_operator"), ("grad/div", g+"difference.py:grad,div"), ("energy", g+"graph.py:dirichlet_energy")])
p("C05", "Fourier basis diagonalizes the Laplacian; the transform is unitary",
  "The Fourier basis is an orthonormal set of eigenvectors of the Laplacian with the eigenvalues in ascending order starting at zero; a full basis has one per vertex, and a partial one holds the requested number of smallest eigenpairs, asking again for as many or fewer keeps it and asking for more extends it. The transform of a signal is its inner products with the basis, the inverse transform undoes it, energy is preserved, and both act alike on each signal of a multi-dimensional array. The coherence is the largest absolute entry of the basis.",
  ["inputs", "histories"], "All graphs x Laplacian types x basis sizes x signals of 1 to 3 dimensions.",
  "Tests check one small and one large graph with random signals and no sequences of partial bases.",
  [g+"fourier.py"], [("eigendecomposition", g+"fourier.py:compute_fourier_basis"), ("transform", g+"fourier.py:gft,igft")])
p("C06", "Estimates of the largest eigenvalue are exact or certified upper bounds",
  "For every graph with at least one edge and both Laplacian types, the largest eigenvalue obtained from the Fourier basis is the exact one, the iterative estimate is never more than about one percent above it nor (on graphs of up to ten vertices, where the iteration is complete) below it, and the bound-based estimate is never below it, is two for the normalized Laplacian and, for the combinatorial one, the tightest of the four documented bounds (number of vertices times the largest weight, twice the largest weighted degree, largest sum of the weighted degrees of adjacent vertices, largest sum of a weighted degree and the weighted mean of its neighbors' degrees). Reading the largest eigenvalue without prior estimation gives the iterative estimate.",
  ["inputs", "configurations"], "All graphs with an edge x Laplacian types x methods.",
  "Tests check a few graphs; the individual bounds and directed, loopy or disconnected graphs are never exercised.",
  [g+"graph.py"], [("estimates", g+"graph.py:estimate_lmax"), ("bounds", g+"graph.py:_get_upper_bound")])
p("C07", "Connectivity, components and subgraphs are exact",
  "A graph is reported connected exactly if every vertex reaches every other (along edge directions if directed), however often and whenever it is asked. Extracting components partitions the vertices of an undirected graph into its maximal connected sets, each returned as a subgraph with the indices of its original vertices. A subgraph on any selection of vertices carries exactly the weights among them, in the selected order, together with the corresponding coordinates and signals, the Laplacian type and the plotting attributes.",
  ["inputs"], "All directed and undirected graphs (exhaustively on few vertices) x vertex selections and orders x attached coordinates and signals.",
  "Tests use one or two graphs; connectivity of small directed graphs has many corner cases.",
  [g+"graph.py"], [("traversal", g+"graph.py:is_connected"), ("components", g+"graph.py:extract_components"), ("selection", g+"graph.py:subgraph")])
p("C08", "Filtering applies the kernel to the Laplacian, whatever the method and shape",
  "Filtering a signal with a kernel equals applying the kernel as a function of the Laplacian: exactly with the exact method, and exactly for polynomial kernels of degree at most the order (up to the approximation error for others) with the Chebyshev method, for every kernel of a filter bank. One or many signals, one or many kernels, analysis (one feature in, one per kernel out) and synthesis (one feature per kernel in, their sum out) agree with filtering each signal by each kernel separately, and outputs have the documented dimensions (vertices, signals, features) with single ones dropped. Localization is filtering a unit impulse scaled by the square root of the number of vertices, and the frame is the matrix of the analysis operator.",
  ["inputs", "configurations"], "All graphs x Laplacian types x kernels and bank sizes x signal shapes x methods and orders.",
  "Tests compare the two methods to each other with loose tolerance on one graph, and never against the operator definition; shape corner cases (one signal, as many signals as filters or vertices) are sampled.",
  [f+"filter.py", f+"approximations.py"], [("filtering", f+"filter.py:filter"), ("analysis/synthesis", f+"filter.py:analyze,synthesize"), ("frame", f+"filter.py:compute_frame,localize"), ("Chebyshev operator", f+"approximations.py:cheby_op,compute_cheby_coeff")])
p("C09", "Filter banks form a consistent algebra",
  "A filter bank evaluates each of its kernels at each given value, in order and keeping the shape of the values; its length is its number of kernels, indexing and slicing select kernels, adding concatenates them, calling it on values evaluates it and calling it on a graph gives the same kernels on that graph. The frame bounds are the extrema of the sum of squared responses over the given values (by default a fine grid over the spectrum), the complement makes that sum constant (the given bound, refusing an infeasible one, or the maximum), and the inverse applied after the analysis returns the original signal whenever the lower bound is positive.",
  ["inputs"], "All filter banks built by construction, indexing, slicing, concatenation, complement and inverse x evaluation points of any shape.",
  "Tests check one bank per operation.",
  [f+"filter.py"], [("evaluation", f+"filter.py:evaluate"), ("algebra", f+"filter.py:__getitem__,__add__,__call__,__len__"), ("frame bounds, complement, inverse", f+"filter.py:estimate_frame_bounds,complement,inverse")])
p("C10", "Filter designs follow their documented kernels and frame properties",
  "Every filter design (heat, wave, rectangular, exponential window, Mexican hat, Meyer, simple tight, half cosine, Itersine, Held, Simoncelli, Papadakis, regular, Abspline, Gabor, modulation) yields as many filters as requested, evaluating to its documented formula for every parameter value and for the largest eigenvalue of the graph. The designs documented as tight frames (Meyer, simple tight, half cosine, Itersine, Held, Simoncelli, Papadakis, regular) have a constant sum of squared responses over the spectrum, equal to one where the design is normalized.",
  ["inputs", "configurations"], "All designs x parameter values x graphs (through the largest eigenvalue) x evaluation points in the spectrum.",
  "Tests check tightness on default parameters only, and formulas of two or three designs.",
  [f+x for x in ("heat.py","wave.py","rectangular.py","expwin.py","mexicanhat.py","meyer.py","simpletight.py","halfcosine.py","itersine.py","held.py","simoncelli.py","papadakis.py","regular.py","abspline.py","gabor.py","modulation.py")],
  [("kernels", f+"*.py"), ("complement of half-band designs", f+"filter.py:complement")])
p("C11", "Exchanging graphs and signals with NetworkX and graph-tool is lossless",
  "Exporting a graph to NetworkX or graph-tool and importing it back gives the same weights (isolated vertices, self-loops, directions and all), and the same signals under the same names with multi-dimensional ones joined back in order. Graphs created in those libraries import with the weights found under the given attribute (one where there is none), parallel edges summed, vertices in their order, and missing node values as not-a-number. Neither export nor import modifies its source.",
  ["inputs"], "All graphs (directed, loops, isolated vertices, integer/bool/float weights) x sets of named signals of any dimension x both libraries.",
  "Tests round-trip a few graphs with one signal; names with suffixes, more than ten dimensions, isolated vertices and loops are not covered.",
  [g+"_io.py"], [("export", g+"_io.py:to_networkx,to_graphtool"), ("import", g+"_io.py:from_networkx,from_graphtool"), ("breaking/joining of signals", g+"_io.py:_break_signals,_join_signals")])
p("C12", "Saving and loading a graph is lossless for every supported format and backend",
  "A graph saved to a file and loaded back with the same backend has the same weights, directedness and signals, for every supported format (given explicitly or by the file extension) and backend; values are rounded to six decimals for GML with graph-tool. Unsupported formats and backends are refused without creating a file, saving does not change the graph, and saving again to the same path replaces the previous content.",
  ["inputs", "histories"], "All graphs and signals x formats x backends x sequences of saves and loads of several graphs over a few paths.",
  "Tests save and load a handful of graphs, one file each.",
  [g+"_io.py"], [("save", g+"_io.py:save"), ("load", g+"_io.py:load")])
p("C13", "Deterministic graph constructors build exactly the documented graph",
  "For every admissible size and parameter, the path, ring, star, comet, fully connected, 2-D grid (with diagonals), torus, low stretch tree and line graph constructors give exactly the documented edges, weights and (where documented) coordinates. The data-set graphs (logo, Minnesota, airfoil, bunny, David sensor network, two moons) always give the same graph, undirected and without self-loops, with one coordinate per vertex.",
  ["inputs"], "All sizes and parameters of the deterministic constructors.",
  "Tests use one or two sizes per constructor and mostly only check that construction succeeds.",
  [g+x for x in ("path.py","ring.py","star.py","comet.py","fullconnected.py","grid2d.py","torus.py","lowstretchtree.py","linegraph.py","logo.py","minnesota.py","airfoil.py","nngraphs/bunny.py","davidsensornet.py")],
  [("edge construction", g+"*.py:__init__")])
p("C14", "Random graph constructors honor their constraints for every seed",
  "For every seed and parameter set, each random constructor gives a graph satisfying what it documents: block and Erdos-Renyi models are binary, respect directedness, self-loop, connectedness and 0/1-probability requests; Barabasi-Albert links each new vertex to the requested number of previous ones; random regular graphs are simple and regular; communities have the requested sizes, densities or neighborhoods; random rings link neighbors on the circle with weights inverse to distance (angles inside the circle); sensor, sphere, cube, Swiss roll and two-moons points lie where documented. The same seed gives the same graph, different from that of other seeds, without reading or changing NumPy's global random state.",
  ["inputs"], "All seeds x parameters of the random constructors.",
  "Tests construct each with one seed and rarely inspect the graph.",
  [g+x for x in ("stochasticblockmodel.py","erdosrenyi.py","barabasialbert.py","randomregular.py","community.py","randomring.py","swissroll.py","nngraphs/sensor.py","nngraphs/sphere.py","nngraphs/cube.py","nngraphs/twomoons.py","davidsensornet.py")],
  [("sampling", g+"*.py:__init__"), ("seeding", "numpy.random.default_rng / RandomState")])
p("C15", "Nearest-neighbor graphs connect the right points with the right weights",
  "For every set of points (duplicates included), a nearest-neighbor graph links each point to its k nearest other points, or to all others within the radius, under the chosen metric, with weight the exponential of minus the squared distance over the kernel width (by default the mean neighbor distance), then symmetrized with the chosen method, whatever the search library. Centering, rescaling and storing of the features follow their flags, no self-loop is created, and image-patch graphs use exactly the patch around each pixel (with symmetric padding) as features.",
  ["inputs", "configurations"], "All point sets x search type x metric x k/radius x width x symmetrization x centering/rescaling x libraries; images and patch shapes.",
  "Tests only check that construction succeeds for combinations of options, or compare two search libraries on one point set.",
  [g+"nngraphs/nngraph.py", g+"nngraphs/imgpatches.py", g+"nngraphs/grid2dimgpatches.py", "pygsp/utils.py"],
  [("search and weighting", g+"nngraphs/nngraph.py:NNGraph.__init__"), ("patches", g+"nngraphs/imgpatches.py")])
p("C16", "Kron reduction, interpolation and the pyramid are exact",
  "The Kron reduction of an undirected graph onto kept vertices is the Schur complement of its Laplacian, itself a Laplacian whose resistance distances and (for connected graphs) connectedness are those of the kept vertices, with their coordinates. A multiresolution keeps, level by level, vertices whose indices trace back to the original graph, interpolation leaves the kept values in place when filtering is exact, and pyramid synthesis of an analysis returns the original signal (or signals), whatever the filters and parameters used for both.",
  ["inputs"], "All connected undirected graphs x kept vertex sets x signals x levels and parameters.",
  "The existing tests do not exercise this module at all.",
  ["pygsp/reduction.py"], [("Schur complement", "pygsp/reduction.py:kron_reduction"), ("interpolation", "pygsp/reduction.py:interpolate"), ("multiresolution", "pygsp/reduction.py:graph_multiresolution"), ("pyramid", "pygsp/reduction.py:pyramid_analysis,pyramid_synthesis")])
p("C17", "Sparsification keeps a subgraph; resistance distances are exact",
  "The resistance distance between any two vertices of a connected graph is the effective resistance given by the pseudo-inverse of the Laplacian, for a graph or a Laplacian matrix, and zero from a vertex to itself. Sparsifying keeps the vertices and only edges of the original graph with non-negative weights that are multiples of the edge's unit share, returns a graph for a graph and a valid Laplacian for a Laplacian, and is reproducible given a seed; parameters out of range are refused.",
  ["inputs"], "All connected undirected graphs x epsilon x seeds.",
  "The existing tests cover one call at most.",
  ["pygsp/reduction.py", "pygsp/utils.py"], [("sampling by resistance", "pygsp/reduction.py:graph_sparsify"), ("resistance", "pygsp/utils.py:resistance_distance")])
p("C18", "Semi-supervised learning solves the documented problem",
  "Tikhonov regression with a positive trade-off returns the minimizer of squared error on measured vertices plus the trade-off times the Dirichlet energy; with a zero trade-off it keeps the measurements and makes the others harmonic. Classification is that regression on the one-hot encoding of the labels, and the simplex-constrained version returns, for every vertex, a non-negative vector summing to one that minimizes the same cost. The values given for unmeasured vertices never matter, for one or many signals and any numeric type.",
  ["inputs"], "All connected graphs x measurement masks x signals/labels x trade-offs.",
  "Tests compare with one closed-form example or one random instance.",
  ["pygsp/learning.py"], [("regression", "pygsp/learning.py:regression_tikhonov"), ("classification", "pygsp/learning.py:classification_tikhonov"), ("simplex", "pygsp/learning.py:classification_tikhonov_simplex")])
p("C19", "No call modifies its inputs, shared defaults or previously returned results",
  "No constructor, transform, filter, learning, reduction, plotting, export or utility call modifies the arrays, lists, dictionaries, images, graphs' weights or signals passed to it. Attributes and results of one object (plotting attributes, signals, scales, coordinates, spectra) never change because another object was created or used, and objects built with default arguments share no mutable state.",
  ["inputs", "histories"], "All public calls x arguments, and pairs of objects created and used in any interleaving.",
  "Tests never compare arguments before and after calls.",
  [g+"graph.py", f+"filter.py", "pygsp/learning.py", "pygsp/reduction.py", "pygsp/utils.py", "pygsp/plotting.py", g+"_io.py"],
  [("copying before in-place work", "various")])
p("C20", "Numerical utilities match their definitions for dense and sparse inputs alike",
  "Symmetrizing gives the average, element-wise maximum, filled (missing direction copied, then averaged) or triangle-based symmetric matrix as documented, identically for dense and sparse input and unchanged for symmetric input. Pairwise distances are Euclidean distances between columns, rescaling centers the rows' means to zero and scales the largest value to one, and log scales are geometrically spaced between the documented ends. The filter bank handler applies a function to each filter of a bank, in order, or to the one asked for.",
  ["inputs"], "All matrices (exhaustively on small sizes) x methods x dense/sparse formats; all parameters.",
  "Tests symmetrize one random matrix.",
  ["pygsp/utils.py"], [("symmetrize", "pygsp/utils.py:symmetrize"), ("distanz", "pygsp/utils.py:distanz"), ("scales", "pygsp/utils.py:compute_log_scales,rescale_center"), ("dispatch", "pygsp/utils.py:filterbank_handler")])
p("C21", "Plots show exactly the given data, and figures are tracked and closed",
  "Plotting a graph draws every vertex at its coordinates with the requested color, size and highlight, every edge of the edge list between its end points with the requested color and width, the signal values with the given or default limits, and the requested title and indices; plotting a filter bank draws each response, the sum of squares, and the eigenvalues as requested. Plotting draws on the given axes or a new figure and returns them, and closing all closes exactly the figures this package created, any number of times.",
  ["inputs", "histories"], "All graphs with 1-D, 2-D or 3-D coordinates x plotting options; all histories of plot, close and close-all calls.",
  "Tests check that plotting does not crash and a few attributes.",
  ["pygsp/plotting.py"], [("graph plotting", "pygsp/plotting.py:_plot_graph,_plt_plot_graph"), ("filter plotting", "pygsp/plotting.py:_plt_plot_filter"), ("figure registry", "pygsp/plotting.py:_plt_handle_figure,close_all")])
p("C22", "Invalid inputs are refused with an error and leave no trace",
  "Inputs outside what is documented (non-square or non-finite weights, unknown Laplacian types, methods, formats, backends, layouts, neighbor types, signals or coordinates of the wrong size, infeasible generator, filter or sparsification parameters, directed or normalized graphs where unsupported) raise an error of the documented kind. The objects involved remain unchanged and fully usable afterwards.",
  ["inputs", "histories"], "All documented invalid inputs of the public functions x the prior state of the object.",
  "Tests check some errors, never the state after them.",
  [g+"graph.py", g+"_io.py", g+"_layout.py", f+"filter.py", "pygsp/reduction.py", "pygsp/learning.py", "pygsp/plotting.py", g+"nngraphs/nngraph.py"],
  [("validation", "various __init__ and methods")])
p("C23", "Layouts place every vertex as documented",
  "Setting coordinates gives every vertex exactly the documented position: the given array, a line in one or two dimensions, a ring, random points in the unit square or cube, spring layouts of the requested dimension, center and scale (fixed vertices stay fixed), Laplacian eigenmaps from the first non-trivial eigenvectors, or communities gathered around distinct centers. Random layouts are reproducible given a seed, and a refused layout leaves the previous coordinates in place.",
  ["inputs", "histories"], "All graphs x layouts and their parameters x sequences of layouts.",
  "Tests check that each layout runs.",
  [g+"_layout.py"], [("layouts", g+"_layout.py:set_coordinates,_fruchterman_reingold_layout")])
p("C24", "Graph features follow their definitions",
  "The average adjacency degree of a vertex is the mean of the degrees of that vertex and its neighbors. The localized atoms of a filter are the rows of the filter as a function of the Laplacian, their norms the corresponding Euclidean norms, for each filter of a bank; the spectrogram holds, for each vertex and shift, the squared norm of the atom of the kernel shifted along the spectrum.",
  ["inputs"], "All graphs x filters and banks x kernels and numbers of shifts.",
  "No existing test covers this module.",
  ["pygsp/features.py"], [("features", "pygsp/features.py")])
p("C25", "Polynomial and Krylov approximations converge to the filter they approximate",
  "Chebyshev coefficients of a kernel are those of its expansion on the spectrum, for each filter of a bank, the Chebyshev operator evaluates the expansion at the Laplacian (any number of coefficients from two, filters and signals), so polynomial kernels are reproduced exactly. The rectangular approximation is the Chebyshev expansion of the band indicator of the requested order, the Jackson-damped coefficients are the documented damping of that expansion, and the Lanczos approximation equals the exact filtering when its order reaches the number of distinct frequencies of the signal.",
  ["inputs", "configurations"], "All graphs x kernels x orders x signals.",
  "Tests compare two methods with loose tolerance.",
  [f+"approximations.py"], [("approximations", f+"approximations.py")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        fh.write(json.dumps(x) + "\n")
print(len(P))

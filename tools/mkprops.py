#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
H = "include/ffcl/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    anchors = {"files": [H + f for f in files],
               "mechanism": [{"name": n, "where": H + w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": H + w} for n, m, w in state]
    anchors["observe_at"] = observe or []
    anchors["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})

prop("C01", "k-nearest-neighbour search over the index is exact",
     "For every dataset, index configuration, query point (indexed or not) and k >= 1, a search with a buffer of capacity k returns min(k, n) distinct indexed samples together with their true distances (Euclidean for floating-point features, Manhattan for signed or unsigned integers), and no indexed sample that is left out is closer than a returned one. "
     "A batch search returns exactly what the individual searches return, in the order of the queries, and the reported closest/furthest neighbour of the result is its true minimum/maximum.",
     ["inputs", "configurations"],
     "all datasets (duplicates, ties, collinear, negative values, 1..d features), all subsets of samples put in the index, all bucket sizes, depth limits, axis-selection and splitting policies, all query points, all k including k > n",
     "the only search test runs one dual-tree loop on generated data and compares timings; no test compares a neighbour list with a brute-force answer, and pruning errors only appear for particular point/pivot/radius configurations",
     ["search/Search.hpp", "search/TreeTraverser.hpp", "search/buffer/StaticBuffer.hpp", "search/buffer/Unsorted.hpp", "datastruct/tree/kdtree/KDNodeView.hpp", "datastruct/tree/kdtree/KDTree.hpp"],
     [("descent to the leaf then backtracking with sibling pruning", "search/TreeTraverser.hpp"),
      ("sibling pruning rule", "datastruct/tree/kdtree/KDNodeView.hpp:select_sibling_node"),
      ("bounded best-k buffer", "search/buffer/StaticBuffer.hpp:update_static_buffers")],
     [("buffer", "the best k candidates seen so far", "search/buffer/StaticBuffer.hpp")],
     ["Searcher::operator() result: indices(), distances(), closest_*, furthest_*"])

prop("C02", "Range search returns exactly the samples inside the query region",
     "A search whose buffer carries a ball returns exactly the indexed samples at distance strictly less than the radius from the centre, and one that carries an axis-aligned box returns exactly the indexed samples inside the closed box, each once and with its true distance to the centre of the region. "
     "With a capacity k the result is the k samples of the region closest to that centre (any choice among ties), and an empty region gives an empty result. Balls also work over integral features, with the Manhattan distance.",
     ["inputs", "configurations"],
     "all floating-point datasets, index configurations, regions (zero radius, radius equal to a distance, regions holding everything or nothing) and capacities",
     "no test runs a bounded search through the index and looks at the result",
     ["search/TreeTraverser.hpp", "search/buffer/Unsorted.hpp", "search/buffer/StaticBuffer.hpp", "datastruct/bounds/Ball.hpp", "datastruct/bounds/AABBWithCentroid.hpp", "datastruct/bounds/UnboundedBall.hpp", "datastruct/tree/kdtree/KDNodeView.hpp"],
     [("membership test of the bound", "datastruct/bounds/Ball.hpp:compute_distance_to_centroid_if_within_bounds"),
      ("sibling pruning rule", "datastruct/tree/kdtree/KDNodeView.hpp:select_sibling_node")],
     observe=["Searcher::operator() result"])

prop("C03", "Searches never return excluded samples and lose no other sample",
     "A search with a set of visited samples returns what the same search would return on the dataset without the visited samples, and a search with a union-find structure and a component returns what it would return without the samples of that component. "
     "This holds for the k nearest, for ball regions, whether the buffer owns or refers to the visited set, and after the buffer has been moved or copied.",
     ["inputs", "configurations"],
     "all datasets, index configurations, visited sets (none, some, all samples), partitions of the samples, capacities and radii",
     "buffer tests exercise the buffers alone on one shape of data; the exclusion combined with tree pruning (a leaf whose samples are all excluded) is never compared with an answer",
     ["search/buffer/WithMemory.hpp", "search/buffer/WithUnionFind.hpp", "search/TreeTraverser.hpp", "datastruct/UnionFind.hpp", "datastruct/tree/kdtree/KDNodeView.hpp"],
     [("visited filter", "search/buffer/WithMemory.hpp:update_impl"),
      ("component filter", "search/buffer/WithUnionFind.hpp:update_impl")],
     observe=["Searcher::operator() result"])

prop("C04", "The kd-tree is a partition of the samples ordered around its pivots",
     "Building an index only permutes the caller's index array (same indices, samples untouched); every indexed sample lies in exactly one place: as the single pivot of an inner node or in one leaf, and pre-order contiguity is kept: the pivot and the two children partition the indices of the subtree. "
     "Along the cut axis every sample of the left subtree is strictly below the pivot and every sample of the right subtree is at or above it, a leaf exceeds the bucket size only at the depth limit, no node lies beyond the depth limit, and parent links agree with child links. The pivot value is the lower median of the subtree along the cut axis, and the cut axis is the one the axis policy names: in turn by depth (cycling), the longest side of the subtree's box, or a feature of highest variance (when the whole subtree is sampled, as subtrees of two or three samples always are), among the masked features if a mask is given.",
     ["inputs", "configurations"],
     "all datasets (ties, constant features, single sample, integral and floating-point), all subsets of indices, all bucket sizes, depth limits, all axis-selection and splitting policies, feature masks",
     "the policy and tree tests only build trees and dump them; quickselect is tested alone with one pivot rule",
     ["datastruct/tree/kdtree/KDTree.hpp", "datastruct/tree/kdtree/KDNodeView.hpp", "datastruct/tree/kdtree/KDTreeAlgorithms.hpp", "datastruct/tree/kdtree/policy/AxisSelectionPolicy.hpp", "datastruct/tree/kdtree/policy/SplittingRulePolicy.hpp", "common/algorithms/Sorting.hpp"],
     [("recursive build", "datastruct/tree/kdtree/KDTree.hpp:build"),
      ("quickselect median split and equal-value shift", "datastruct/tree/kdtree/KDTreeAlgorithms.hpp:quickselect_median_range"),
      ("axis selection", "datastruct/tree/kdtree/policy/AxisSelectionPolicy.hpp")],
     [("node", "indices range, cut axis, bound, children, parent", "datastruct/tree/kdtree/KDNodeView.hpp")],
     ["KDTree::root() and the public node members"])

prop("C05", "Bounds contain their samples and bound distances from below",
     "The bounding box computed for a set of samples is the tightest closed box holding them, and the box of every node of an index contains all samples of its subtree. "
     "Membership in a ball is strict, in a box closed (also for integral features), and unbounded regions contain everything; the minimum distance between a point or region and another region is never greater than the distance between any two points they hold, is zero when they overlap, and equals the true gap for boxes, balls and segments. The number of features, centre, half lengths, diameter and furthest side every bound reports are those of its sides or radius (infinite for unbounded regions), through every accessor and whether the number of features is fixed at compile time or not.",
     ["inputs"],
     "all sets of floating-point samples, all boxes, balls, segments and points",
     "three tests sample a handful of random boxes; containment of every subtree is never checked",
     ["datastruct/bounds/AABB.hpp", "datastruct/bounds/AABBWithCentroid.hpp", "datastruct/bounds/Ball.hpp", "datastruct/bounds/UnboundedBall.hpp", "datastruct/bounds/distances/MinDistance.hpp", "datastruct/bounds/segment/LowerBoundAndUpperBound.hpp", "datastruct/bounds/segment/LowerBoundAndLength.hpp", "datastruct/bounds/segment/distances/MinDistance.hpp", "datastruct/tree/kdtree/KDTreeAlgorithms.hpp"],
     [("tight bounds", "datastruct/tree/kdtree/KDTreeAlgorithms.hpp:make_tight_bound"),
      ("min_distance overloads", "datastruct/bounds/distances/MinDistance.hpp")],
     observe=["is_in_bounds, min_distance, segment accessors, node bounds"])

prop("C06", "A neighbour buffer always holds the best k of the candidates offered",
     "After any sequence of candidates (index, distance) offered to a buffer of capacity k, in any order and however interleaved between single updates and partial searches over ranges of samples, the buffer holds the min(k, number of admissible candidates) admissible candidates of smallest distance, one slot per offered candidate. "
     "Its size, remaining capacity, closest and furthest entries always describe that content, a partial search offers exactly the samples of its range that lie in the buffer's region, and visited candidates, or candidates that belong to the excluded component when they are offered, never enter.",
     ["histories", "inputs"],
     "all sequences of updates and partial searches, all capacities, with ties, equal distances, zero distances and decreasing/increasing orders, for the three kinds of buffers",
     "buffer tests offer one random sequence per type and compare sizes or sorted distances once",
     ["search/buffer/StaticBuffer.hpp", "search/buffer/Unsorted.hpp", "search/buffer/WithMemory.hpp", "search/buffer/WithUnionFind.hpp"],
     [("insert / replace the furthest", "search/buffer/StaticBuffer.hpp:update_static_buffers")],
     [("indices_, distances_", "content", "search/buffer/StaticBuffer.hpp"), ("furthest, closest", "cached extrema", "search/buffer/StaticBuffer.hpp")],
     ["buffer accessors after every operation"])

prop("C07", "Dual-tree and dual-set searches return a truly shortest edge",
     "The dual-tree search between a query index and a reference index with capacity k >= 1 returns an edge between a query sample and an admissible reference sample whose length is their distance and is the k-th smallest over all admissible query/reference pairs (the smallest for k = 1), provided there are at least k of them; with visited samples or a union-find component only reference samples outside of them are admissible. "
     "The closest edge between two sets of samples is likewise a pair of minimal distance (the exhaustive variant, which considers pairs at positive distance only, among those).",
     ["inputs", "configurations"],
     "all pairs of query and reference sets, index configurations, capacities, visited sets and partitions",
     "the one existing test times the loop and does not compare the edge with an exhaustive answer",
     ["search/Search.hpp", "search/DualTreeTraverser.hpp", "search/TreeTraverser.hpp", "search/ClosestPairOfSamples.hpp", "search/buffer/IndicesToBuffersMap.hpp"],
     [("recursive dual traversal with node-pair pruning", "search/TreeTraverser.hpp"),
      ("per-query buffers and per-node limits", "search/buffer/IndicesToBuffersMap.hpp")],
     observe=["returned edge"])

prop("C08", "A serialized index describes exactly the index and its samples",
     "Serializing an index writes a document whose sample and feature counts and options are those of the index, whose bounding box is the tight box of the indexed samples, and whose tree has the same shape, cut axes and, node by node, exactly the same sample coordinates (reading the numbers back gives the stored values) in the same order as the in-memory tree. "
     "This also holds for an index that has been copied or moved.",
     ["inputs", "configurations", "histories"],
     "all datasets, index configurations, and copies or moves of the index before serialization",
     "the existing tests write files nobody reads back, and never serialize a moved tree",
     ["datastruct/tree/kdtree/KDTree.hpp", "datastruct/tree/kdtree/KDNodeView.hpp"],
     [("serialize", "datastruct/tree/kdtree/KDTree.hpp:serialize")],
     observe=["JSON document vs KDTree::root()"])

prop("C09", "Sorting, selection and partitioning permute and order samples correctly",
     "For every range of indices into a dataset, feature and position, quickselect, partitioning and sorting leave the samples untouched and the indices a permutation of what they were; partitioning puts at the returned position the value of the given pivot, with nothing greater before and nothing smaller after it along the feature, selection does so for the requested position, and sorting orders the whole range by the feature and returns a position that holds the value of the given pivot. The median split of the index returns the lower median of the range and three adjacent ranges: what is strictly below it, itself, and the rest, with its position. "
     "The median-of-three choice returns the position of a median of the first, middle and last value (0 below three samples). This holds whatever the scale of the values.",
     ["inputs"],
     "all ranges (empty features excluded), all values with ties, all features, all requested positions, all data types",
     "random fixtures of a few sizes with mostly distinct values; ties and small scales are sampled only or not at all",
     ["common/algorithms/Sorting.hpp", "common/Utils.hpp"],
     [("partition_around_nth_range / quickselect_range / quicksort_range", "common/algorithms/Sorting.hpp")],
     observe=["the range after the call and the returned position"])

prop("C10", "Union-find maintains exactly the equivalence generated by the merges",
     "After any sequence of merges, two elements have the same representative if and only if they are connected by merged pairs, a representative represents itself and belongs to its set, and merge returns the representative of the resulting set. "
     "Finding never changes the partition.",
     ["histories"],
     "all sequences of merge and find over all element pairs, including merging an element with itself or with its own set",
     "no test exercises the structure directly",
     ["datastruct/UnionFind.hpp"],
     [("union by rank", "datastruct/UnionFind.hpp:merge"), ("find", "datastruct/UnionFind.hpp:find")],
     [("parents_/labels_, ranks_", "forest", "datastruct/UnionFind.hpp")],
     ["find(i) for all i after every merge"])

prop("C11", "Boruvka yields a minimum spanning tree of the Euclidean graph",
     "With one neighbour (no core distances) the edge list built from an index of all n samples has n-1 edges between distinct existing samples, connects all samples, weighs every edge with the distance of its end points, and has the minimum total weight among all spanning trees (Euclidean distances for floating-point features, Manhattan distances for integral ones). "
     "A dataset of a single sample gives an empty list.",
     ["inputs", "configurations"],
     "all datasets (duplicates and ties included), feature types and index configurations",
     "the existing tests build trees and dump them; none computes a reference weight",
     ["datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp", "datastruct/graph/spanning_tree/MinimumSpanningTree.hpp", "datastruct/UnionFind.hpp", "search/buffer/WithUnionFind.hpp"],
     [("closest edge per component then merge", "datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp:step_sequential"),
      ("last merge of two components", "datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp:dual_component_step_sequential")],
     [("Forest", "components, union-find, edges", "datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp")],
     ["BoruvkasAlgorithm::make_tree result"])

prop("C12", "With k > 1 neighbours the tree is minimal for mutual reachability",
     "The core distance of a sample is its distance to its k-th nearest sample, itself included (to the furthest one if there are fewer than k). "
     "With k > 1 neighbours the edge list spans all samples, weighs every edge with the largest of the two core distances and the distance of its end points, and has the minimum total weight for those weights.",
     ["inputs", "configurations"],
     "all datasets, feature types, all k > 1 including k > n, all index configurations",
     "no test looks at a core distance or an edge weight",
     ["datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp", "datastruct/graph/spanning_tree/CoreDistances.hpp"],
     [("core distances", "datastruct/graph/spanning_tree/CoreDistances.hpp:make_static_core_distances"),
      ("mutual reachability edge", "datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp")],
     observe=["make_static_core_distances, BoruvkasAlgorithm::make_tree result"])

prop("C13", "The single-linkage tree is the dendrogram of the spanning tree",
     "From a spanning tree with n-1 weighted edges (in any order) the single-linkage tree has the n samples as leaves at level 0 and n-1 inner nodes whose levels are the edge weights; the level of an inner node is the weight that joins the samples of its two children, it never exceeds its parent's level, node sizes count their leaves and parent links agree with child links. "
     "Cutting at a level groups two samples exactly when they are connected by edges shorter than the level: samples of a group with at least the minimum cluster size carry the index of one of its samples as their common label, samples of smaller groups are labelled 0. The serialized tree describes the same dendrogram, with exactly the same levels.",
     ["inputs", "configurations"],
     "all weighted trees including ties and zero weights, all cut levels",
     "the existing tests build the structure from generated data and assert nothing",
     ["datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp", "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp", "datastruct/graph/spanning_tree/MinimumSpanningTree.hpp"],
     [("merge edges by increasing weight", "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp:build")],
     observe=["root() traversal, predict/extract flat clusters"])

prop("C14", "Condensed-tree clusters are the excess-of-mass optimum",
     "Condensing a single-linkage tree with minimum cluster size m keeps exactly the splits whose two sides both hold at least m samples; the labels given to the samples are those of a selection of condensed clusters, none an ancestor of another, that maximises the total stability (a tie keeps the larger cluster), where the stability of a cluster sums, over its samples, the inverse distance at which the sample leaves the cluster minus the one at which the cluster appears (the inverse of a zero distance counting as 0). "
     "A sample is labelled 0 exactly when no selected cluster holds it, clusters are labelled 1, 2, ... without gaps, and the whole dataset is only returned as one cluster when single clusters are allowed or no split has two sides of the minimum size; on request the clusters without sub-clusters are returned instead of the optimal ones.",
     ["inputs", "configurations"],
     "all spanning trees, minimum cluster sizes, single-cluster and leaf-selection options",
     "the existing tests print labels of generated data and assert nothing",
     ["datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp", "datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp"],
     [("condensation", "datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp:build"),
      ("excess-of-mass selection", "datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp:extract_flat_clusters")],
     observe=["predict()"])

prop("C15", "HDBSCAN labels are the clustering its three stages define",
     "Predicting with HDBSCAN gives one label per sample and equals a clustering obtained from some minimum spanning tree of the mutual reachability graph, its single-linkage dendrogram, and the excess-of-mass selection for the configured neighbours, minimum cluster size and single-cluster option. "
     "Every cluster has at least the minimum size (or is the whole dataset) and labels are 0 for noise and 1, 2, ... without gaps.",
     ["inputs", "configurations"],
     "all floating-point datasets, index configurations, neighbour counts, minimum cluster sizes and options",
     "one test prints the labels of one dataset",
     ["hdbscan/HDBSCAN.hpp", "datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp", "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp", "datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"],
     [("pipeline", "hdbscan/HDBSCAN.hpp:predict")],
     observe=["HDBSCAN::predict"])

prop("C16", "DBSCAN labels are exactly the density-connected components",
     "A sample is core when more than the configured minimum number of samples (itself included) lie strictly within the radius. Two core samples share a label exactly when they are linked by a chain of core samples each strictly within the radius of the next, a non-core sample within the radius of a core sample carries the label of one such core sample, and every other sample is noise (0). "
     "Labels are 0 for noise and 1, 2, ... without gaps, one per connected group of core samples. Distances are Euclidean for floating-point features and Manhattan for integers.",
     ["inputs", "configurations"],
     "all floating-point datasets, radii (including radii equal to a distance), minimum sample counts and index configurations",
     "the existing tests print labels of generated data and assert nothing",
     ["dbscan/DBSCAN.hpp", "search/TreeTraverser.hpp", "datastruct/bounds/Ball.hpp"],
     [("expansion of clusters from core samples", "dbscan/DBSCAN.hpp:predict")],
     [("predictions", "labels assigned so far", "dbscan/DBSCAN.hpp")],
     ["DBSCAN::predict"])

prop("C17", "A Lloyd iteration moves each centroid to the mean of its samples",
     "One iteration of Lloyd's algorithm assigns every sample to a nearest centroid and returns centroids each equal to the mean of its assigned samples, a centroid without samples keeping its position; the reported total deviation is the sum of the distances of the samples to their nearest returned centroid. "
     "The sum of squared distances to the nearest centroid never increases from one iteration to the next and a repeated configuration is a fixed point.",
     ["histories", "inputs"],
     "all floating-point datasets, all initial centroids (duplicated, far away, without any sample), all numbers of iterations",
     "KMeans tests run fit on generated data and assert nothing about centroids",
     ["kmeans/Lloyd.hpp", "kmeans/KMeansUtils.hpp"],
     [("update_clusters / update_centroids / update_buffers", "kmeans/Lloyd.hpp")],
     [("centroids_, assignments, cluster sums and sizes", "iteration state", "kmeans/Lloyd.hpp")],
     ["Lloyd::step, total_deviation"])

prop("C18", "Hamerly's accelerated iteration is an exact k-means iteration",
     "However many iterations were done before, one iteration of Hamerly's algorithm returns centroids each equal to the mean of the samples assigned to it, where every sample is assigned to one of its nearest centroids of the previous iteration (a centroid without samples keeps its position): skipping distance computations never changes the outcome. "
     "Without ties it therefore visits the same centroids as Lloyd's algorithm from the same start.",
     ["histories", "inputs"],
     "all floating-point datasets, all initial centroids, all numbers of iterations",
     "no test compares the two algorithms; stale bounds only show after several iterations on particular geometries",
     ["kmeans/Hamerly.hpp", "kmeans/KMeansUtils.hpp", "common/math/statistics/Statistics.hpp"],
     [("upper/lower bound tests", "kmeans/Hamerly.hpp:swap_bounds"), ("bound maintenance", "kmeans/Hamerly.hpp:update_bounds")],
     [("assignments, upper and lower bounds, cluster sums and sizes", "iteration state", "kmeans/Hamerly.hpp")],
     ["Hamerly::step"])

prop("C19", "KMeans fit keeps its best run; predict and forward use its centroids",
     "Fitting starts from the given centroids if there are any and otherwise from the initializer's, runs at most the maximum number of iterations, stops early only at unchanged centroids (within the tolerance, after the patience), and among several initializations returns one whose total deviation is the smallest. "
     "After fitting, predict gives for every sample the index of a nearest returned centroid and forward the distance to it.",
     ["inputs", "configurations", "histories"],
     "all floating-point datasets, numbers of centroids, initial centroids, options and both algorithms",
     "the tests fit and print; none checks which candidate is kept, how many iterations are run, or a prediction",
     ["kmeans/KMeans.hpp", "kmeans/KMeansUtils.hpp", "kmeans/KMeansPlusPlus.hpp"],
     [("candidate loop, early stopping, best candidate", "kmeans/KMeans.hpp:fit")],
     observe=["KMeans::fit, predict, forward"])

prop("C20", "FasterPAM keeps distinct medoids, an exact loss, and ends swap-optimal",
     "Every pass of FasterPAM keeps as many medoids as it was given, all distinct existing samples, reports as total deviation exactly the sum of the distances of the samples to their nearest medoid, and never increases it. "
     "When a pass changes nothing, no exchange of one medoid with one other sample lowers the total deviation (for distances whose sums are not rounded: rounding may exchange tied medoids back and forth).",
     ["histories", "inputs"],
     "all floating-point datasets and distance matrices (ties and duplicates included), all initial distinct medoids (two or more), all numbers of passes",
     "KMedoids tests fit generated data and compare nothing with an exhaustive search",
     ["kmedoids/FasterPAM.hpp", "kmedoids/PAMUtils.hpp"],
     [("best swap", "kmedoids/FasterPAM.hpp:find_best_swap"), ("incremental buffers", "kmedoids/FasterPAM.hpp:swap_buffers")],
     [("medoids_, nearest / second nearest caches, loss", "iteration state", "kmedoids/FasterPAM.hpp")],
     ["FasterPAM::step, total_deviation"])

prop("C21", "KMedoids fit, predict and forward agree on nearest medoids",
     "Fitting returns as many distinct existing samples as medoids as were asked for, from the given medoids or from a random start, and fitting from samples or from their precomputed distance matrix gives the same medoids from the same start; among several random starts FasterPAM keeps one of the smallest total deviation. "
     "After fitting, predict gives for every sample a nearest medoid and forward the distance to it, for samples and for matrices alike. The helpers give the nearest, second and third nearest medoids (distinct, with their distances), the loss of removing each medoid, the single best medoid with its deviation, and the features of the medoids; asked about no medoids, or for a rank that is 0 or above the number of medoids, they throw std::invalid_argument.",
     ["inputs", "configurations"],
     "all floating-point datasets, numbers of medoids, initial medoids, options, FasterPAM and FasterMSC, with and without precomputed distances",
     "KMedoids tests fit generated data and assert nothing about medoids or predictions",
     ["kmedoids/KMedoids.hpp", "kmedoids/FasterPAM.hpp", "kmedoids/FasterMSC.hpp", "kmedoids/PAMUtils.hpp", "datastruct/matrix/PairwiseDistanceMatrix.hpp"],
     [("candidate loop", "kmedoids/KMedoids.hpp:fit"), ("nearest medoid helpers", "kmedoids/PAMUtils.hpp")],
     observe=["KMedoids::fit, predict, forward"])

prop("C22", "Silhouette scores follow their definition",
     "For every labelling with at least two clusters, cohesion is the mean distance of a sample to the other samples of its cluster, separation the smallest mean distance to the samples of another non-empty cluster, and the silhouette is their normalised difference, 0 for a sample alone in its cluster. "
     "Scores therefore lie in [-1, 1] and the average silhouette is their mean.",
     ["inputs"],
     "all floating-point datasets and labellings, labels with gaps and singleton clusters included",
     "one test prints averages",
     ["common/math/heuristics/SilhouetteMethod.hpp"],
     [("cohesion, separation, silhouette", "common/math/heuristics/SilhouetteMethod.hpp")],
     observe=["return values"])

prop("C23", "Random initialisation picks valid, distinct and unbiased candidates",
     "Selecting n elements of a range returns n elements at distinct positions, every selection being equally likely; random samples and uniform centroids are distinct existing samples, k-means++ centroids are existing samples that never repeat a position while an uncovered one is left (the variant that only weighs by the previous centroid never repeats the previous one), and spatially uniform centroids lie in the bounding box of the samples. "
     "Weighted selection returns elements with probabilities proportional to their weights, so never one of zero weight.",
     ["inputs", "histories"],
     "all datasets, ranges, weights and counts, all outcomes of the random generator",
     "tests draw once and print",
     ["common/math/random/Sampling.hpp", "common/math/random/VosesAliasMethod.hpp", "common/math/random/Distributions.hpp", "kmeans/KMeansPlusPlus.hpp"],
     [("partial Fisher-Yates shuffle", "common/math/random/Sampling.hpp:select_n_elements"),
      ("alias tables", "common/math/random/VosesAliasMethod.hpp"),
      ("k-means++ weights", "kmeans/KMeansPlusPlus.hpp")],
     observe=["returned elements over many draws"])

prop("C24", "Distances and distance matrices are true, symmetric metrics",
     "Distance functions return the Euclidean, squared Euclidean and Manhattan distance, the cosine similarity (infinite if a vector is zero) and the Levenshtein edit distance of their arguments, whichever overload is called, and the automatic distance is Euclidean for floating-point and Manhattan for integral features. "
     "A pairwise distance matrix, precomputed or dynamic, gives for every ordered pair the distance of the two samples: symmetric with a zero diagonal, both kinds agreeing.",
     ["inputs"],
     "all feature vectors and sequences, all pairs of rows",
     "matrices are only tested against a file that is not shipped; no distance function has a test",
     ["common/math/heuristics/Distances.hpp", "datastruct/matrix/PairwiseDistanceMatrix.hpp", "datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"],
     [("distance functions", "common/math/heuristics/Distances.hpp"), ("triangular storage", "datastruct/matrix/PairwiseDistanceMatrix.hpp")],
     observe=["return values"])

prop("C25", "Per-feature statistics agree with their definitions in every variant",
     "Mean and (sample) variance per feature are those of exactly the selected samples and features, and the plain, indexed and masked variants agree with each other; the selected feature is one of highest variance among the considered ones. "
     "Argmin/argmax and the minimum, maximum, second maximum and n-th smallest element searches return a position that holds the value they name, and min-max normalisation maps the values affinely to [0, 1] in reverse order: the smallest to 1 and the largest to 0 (1/n each if all are equal). Means of integral features are rounded towards zero; variances are those of floating-point features and two or more samples.",
     ["inputs"],
     "all datasets, index subsets (any order), feature masks, ranges with ties",
     "two fixtures sample the plain variants; indexed and masked variants with real subsets are not compared",
     ["common/math/statistics/Statistics.hpp"],
     [("mean/variance variants and arg-selections", "common/math/statistics/Statistics.hpp")],
     observe=["return values"])

prop("C26", "Transposition and sample utilities preserve every element in its place",
     "Transposing a matrix moves element (i, j) to (j, i) for every shape, sequentially and in parallel, and transposing twice gives the matrix back. "
     "Reordering samples by a permutation of indices places the samples in that order, feature masks and vector views read exactly the selected features, and translating a range to an origin subtracts it feature by feature.",
     ["inputs", "schedules"],
     "all shapes (single row, single column, non-square), all permutations, all masks, any number of threads",
     "fixtures sample a few random shapes",
     ["common/math/linear_algebra/Transpose.hpp", "common/math/linear_algebra/Translation.hpp", "common/Utils.hpp", "datastruct/vector/FeaturesMask.hpp", "datastruct/vector/FeaturesVector.hpp"],
     [("transpose", "common/math/linear_algebra/Transpose.hpp"), ("remap_ranges_from_indices and friends", "common/Utils.hpp")],
     observe=["return values"])

prop("C27", "FasterMSC keeps distinct medoids, an exact silhouette loss, ends swap-optimal",
     "Whatever the distinct starting medoids (at least two), after construction and after every step of FasterMSC the medoids are distinct samples and the reported total deviation is the medoid silhouette loss of exactly those medoids: "
     "the sum over the samples of the distance to the nearest medoid divided by the distance to the second nearest one (0 when both are 0). The loss never rises (up to rounding), and a step that leaves the medoids as they are means that no exchange of one medoid for another sample lowers it "
     "(rounding aside). This does not depend on the scale of the data or on whether distances are precomputed, and KMedoids::fit with FasterMSC returns what these steps reach, keeping the start with the smallest loss.",
     ["inputs", "configurations"],
     "all datasets with ties, duplicates and any scale, all starting medoids, both distance storages, all numbers of medoids of two and more",
     "no test instantiates FasterMSC at all",
     ["kmedoids/FasterMSC.hpp", "kmedoids/PAMUtils.hpp", "kmedoids/KMedoids.hpp"],
     [("find_best_swap / swap_buffers and their variants for two medoids", "kmedoids/FasterMSC.hpp"), ("nearest, second and third nearest medoids; losses of removal", "kmedoids/PAMUtils.hpp")],
     observe=["total_deviation(), the medoids returned by step and fit"])


prop("C28", "Threads sharing an index, a model or samples get what they would get alone",
     "Any number of threads may call const operations of the same object at the same time (searches, batches and shortest edges of a Searcher, predictions and distances of fitted KMeans, KMedoids and DBSCAN objects, "
     "cluster trees, distance matrices, serialization of an index), and may fit, build, draw, sort and measure with objects of their own over the same samples. "
     "In every schedule each call returns a result it could have returned alone, shared samples and objects are left as they were, and no two threads touch the same memory unprotected.",
     ["schedules", "inputs"],
     "all interleavings of any number of threads, all mixtures of operations, all datasets and index configurations",
     "every test is single-threaded",
     ["search/Search.hpp", "search/TreeTraverser.hpp", "datastruct/tree/kdtree/KDTree.hpp", "common/math/random/Distributions.hpp", "kmeans/KMeans.hpp", "kmedoids/KMedoids.hpp", "dbscan/DBSCAN.hpp", "datastruct/matrix/PairwiseDistanceMatrix.hpp"],
     [("Searcher::operator() const and dual_tree_shortest_edge const", "search/Search.hpp"), ("predict/forward const", "kmeans/KMeans.hpp"), ("the generator of each thread", "common/math/random/Distributions.hpp")],
     observe=["return values of concurrent calls", "data races reported by the instrumented build"])

prop("C29", "Released objects give everything back; held ones stay valid",
     "Whatever is done with the library's objects (indices, searches, single linkage and condensed trees, models, matrices, documents written to files), in any order of building, copying, moving, assigning, walking to nodes and releasing: once the last object or node that leads to a part of a hierarchy is gone, that part is freed, and once everything is released no memory and no open file remains; performing an operation again and again accumulates neither. Until then everything a held object or node leads to (its samples' labels, its children, a copy's shared nodes, the dendrogram under a condensed tree) stays valid and unchanged, even when the object it was obtained from is gone; a node whose parent has been released says that it has no parent.",
     ["histories", "inputs"],
     "all histories of building, copying, moving, assigning, holding and releasing objects and nodes, all hierarchies and repetitions of operations",
     "the tests build one object each, and a process that ends gives its memory back whether it was released or not",
     ["datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp", "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp", "datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp", "datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp", "datastruct/tree/kdtree/KDNodeView.hpp", "datastruct/tree/kdtree/KDTree.hpp", "hdbscan/HDBSCAN.hpp"],
     [("parent_, left_, right_ of a dendrogram node", "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp"), ("parent_ (weak), left_, right_ of an index node", "datastruct/tree/kdtree/KDNodeView.hpp"), ("copy and move of an index", "datastruct/tree/kdtree/KDTree.hpp")],
     observe=["which nodes are alive after each operation", "blocks and bytes allocated, files open, before and after"])


out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))

"""Text of the properties; gen.py turns it into properties.jsonl and MANIFEST.json."""
P = {}
def p(id, title, statement, over, qtext, why, files, mech, note=""):
    P[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note)

LBC = "the tests run one routine on three fixed matrices and compare one solve; they never look at the schedule of another shape, cost vector or partition parameter"
p("P01", "LBC on a DAG yields a complete, dependence-respecting schedule",
  "For every lower triangular DAG, every vector of node costs and every combination of partition parameters, the serial LBC routine for DAGs returns a three-level schedule whose pointers are non-decreasing, in which every node occurs exactly once. Every edge u->v goes to a later level, or stays inside one w-partition with u before v, so that w-partitions of one level never depend on each other. The reported number of partitions agrees with the schedule, the input is unchanged, and no array is accessed out of bounds.",
  ["inputs", "configurations"], "every lower triangular pattern up to the bounded size x all integer costs up to the bound x number of inner parts, level distance, division rate and bin packing on/off", LBC,
  ["src/lbc_csc.cpp", "src/lbc_utils.cpp", "utils/sparse_inspector.cpp"], [("get_coarse_levelSet_DAG_CSC", "src/lbc_csc.cpp"), ("worst_fit_bin_pack", "src/lbc_utils.cpp"), ("build_levelSet_CSC", "utils/sparse_inspector.cpp")])
p("P02", "LBC on the CSC03 path yields a complete, dependence-respecting schedule",
  "The second serial LBC routine for DAGs (the CSC03 variant) returns, for every lower triangular DAG, cost vector and parameter choice, a schedule in which each node occurs exactly once and every edge goes to a later level or stays in order inside one w-partition. Its pointers are non-decreasing, its reported number of partitions agrees with the schedule, and the input is unchanged.",
  ["inputs", "configurations"], "as P01", LBC, ["src/lbc_csc_dag.cpp", "src/lbc_utils.cpp"], [("get_coarse_Level_set_DAG_CSC03", "src/lbc_csc_dag.cpp")])
p("P03", "The parallel LBC inspector is as correct as the serial one and race free",
  "The parallel LBC inspector returns a schedule with each node exactly once and every edge to a later level or in order inside one w-partition, for every lower triangular DAG, cost vector and parameter choice. When it runs with several threads, two threads never access the same memory location with one of them writing, except for the deliberately racy label propagation of its connected-component search.",
  ["inputs", "configurations", "schedules"], "as P01; race check over every pair of loop iterations", LBC + "; the test build has no threads", ["src/lbc_csc_dag.cpp"], [("get_coarse_Level_set_DAG_CSC03_parallel", "src/lbc_csc_dag.cpp")])
p("P04", "Tree LBC yields a complete schedule with children before parents",
  "For every forest given by parent pointers, every cost vector and every parameter choice, the tree-based LBC routines (from an elimination tree, and from a CSC matrix through its tree) return a schedule in which every node occurs exactly once, and every node is scheduled after all its children: in a later level, or later in the same w-partition. Different w-partitions of one level are independent.",
  ["inputs", "configurations"], "every forest / lower triangular pattern up to the bounded size x costs x parameters", LBC, ["src/lbc_tree.cpp", "src/lbc_csc.cpp", "src/lbc_utils.cpp", "utils/etree.cpp"], [("get_coarse_levelSet_tree", "src/lbc_tree.cpp"), ("get_coarse_levelSet_DAG_CSC_tree", "src/lbc_csc.cpp")])
p("P05", "LBC on blocked (supernodal) matrices yields a valid schedule of the blocks",
  "For every supernodal lower triangular pattern, cost vector and parameter choice, the blocked LBC routine returns a schedule of the supernodes in which every supernode occurs exactly once, and every dependence between supernodes goes to a later level or stays in order inside one w-partition.",
  ["inputs", "configurations"], "every block structure up to the bounded number of blocks, width and off-diagonal rows", LBC + "; no test calls the blocked routine", ["src/lbc_blocked.cpp", "utils/sparse_inspector.cpp"], [("getCoarseLevelSet_DAG_BCSC02", "src/lbc_blocked.cpp"), ("build_levelSet_BCSC", "utils/sparse_inspector.cpp")])
HD = "no test calls the HDagg part of the library at all"
p("P06", "HDagg yields a complete, dependence-respecting schedule",
  "For every lower triangular DAG, positive cost vector, number of cores and choice of bin packing or post-ordering, HDAGG returns a number of coarsened levels, a level pointer, a partition pointer and a node list that form a schedule: every node occurs exactly once, and every edge goes to a later coarsened level or stays in order inside one partition. The returned wavefront cuts divide the wavefronts into consecutive non-empty ranges, one per coarsened level; with bin packing no level has more partitions than cores; and output vectors that were not empty on entry do not matter.",
  ["inputs", "configurations"], "every lower triangular pattern up to the bounded size x costs x cores x flags", HD, ["src/hdagg/hdagg.cpp"], [("HDAGG", "src/hdagg/hdagg.cpp"), ("computeSchedule, computeCC", "src/hdagg/hdagg.cpp")])
p("P07", "GLC yields a complete, dependence-respecting schedule",
  "For every lower triangular DAG, positive cost vector, number of cores and choice of flags, GLC_V2 returns a schedule in which every node occurs exactly once and every edge goes to a later coarsened level or stays in order inside one partition. The returned wavefront cuts are consecutive non-empty ranges, one per coarsened level, and with bin packing no level has more partitions than cores.",
  ["inputs", "configurations"], "as P06", HD, ["src/hdagg/hdagg.cpp"], [("GLC_V2", "src/hdagg/hdagg.cpp")])
p("P08", "Building a schedule from any valid wavefront merge preserves the dependences",
  "Given the level sets of a DAG, any cut of them into coarsened levels and any chunking of components over cores, the HDagg schedule builder places every node exactly once, one coarsened level per range, and every edge goes to a later level or stays in order inside one partition. The stand-alone coarsening routine yields such a schedule too, on sparse and on dense DAGs.",
  ["inputs", "configurations"], "every lower triangular pattern and every way of cutting its levels", HD, ["src/hdagg/hdagg.cpp"], [("computeSchedule", "src/hdagg/hdagg.cpp"), ("build_coarsened_level_parallel", "src/hdagg/hdagg.cpp")])
p("P09", "Level sets are a topological layering at longest-path depth; cycles are reported",
  "For every directed graph, each general level-set builder either reports that the graph has a cycle (exactly when it has one) or returns non-empty levels that list every node exactly once, in the level equal to the length of the longest path ending in it. The queue-based builder does so for every acyclic graph. The input is unchanged.",
  ["inputs"], "every digraph (cycles included) up to the bounded size", "the tests see the level sets of three fixed matrices only through a solve", ["utils/sparse_inspector.cpp", "src/hdagg/hdagg.cpp"], [("build_levelSet_CSC", "utils/sparse_inspector.cpp"), ("computingLevelSet_CSC", "src/hdagg/hdagg.cpp"), ("level_set_bn / queue variants", "utils/sparse_inspector.cpp")])
p("P10", "Level sets of several coupled kernels, trees and blocks respect every dependence",
  "The level-set builders for several chained copies of a kernel, for supernodes of lower and upper triangular matrices, for trees (both variants) and for blocked matrices list every node or supernode of every kernel exactly once, in the level equal to its longest incoming path, where each kernel copy also depends on the previous one. The depth computation gives each node its longest path to a sink.",
  ["inputs", "configurations"], "every lower triangular pattern x 1-3 kernel copies, every forest, every supernode structure up to the bounds", "no test calls these builders", ["utils/sparse_inspector.cpp"], [("level-set builders", "utils/sparse_inspector.cpp")])
p("P11", "Connected components of a level window are computed exactly",
  "For every DAG and every window of consecutive levels, two nodes of the window get the same component label exactly when they are connected by edges with both ends in the window; nodes outside are untouched. The incremental version used by the greedy merge gives the same components, their number, and component costs that add up to the cost of the window.",
  ["inputs"], "every lower triangular pattern and level window up to the bounds", HD, ["src/hdagg/hdagg.cpp"], [("parallel_cc", "src/hdagg/hdagg.cpp"), ("computeCC", "src/hdagg/hdagg.cpp")])
p("P12", "Node grouping is a partition whose quotient graph is acyclic",
  "Every grouping strategy (tree based, breadth-first tree based, chain, aggressive) returns groups that contain each node exactly once, whatever the output vectors held before. The graph built between groups (for any partition) lists sorted, distinct children and has an edge exactly where a node of one group depends on a node of the other; for the library's groupings it has no cycle.",
  ["inputs", "configurations"], "every lower triangular pattern up to the bounds x strategy", HD, ["src/hdagg/hdagg.cpp"], [("treeBasedGrouping, treeBasedGroupingBFS, chainGrouping", "src/hdagg/hdagg.cpp"), ("buildGroupDAG", "src/hdagg/hdagg.cpp")])
p("P13", "The full grouped HDagg pipeline yields a valid schedule of the original nodes",
  "Grouping the nodes, optionally pruning transitive edges, building the group DAG, scheduling it with HDagg and ungrouping the schedule gives, for every lower triangular DAG and every grouping strategy, a schedule of the original nodes in which each occurs exactly once and every original edge goes to a later level or stays in order inside one partition.",
  ["inputs", "configurations"], "every lower triangular pattern up to the bounds x strategy x pruning", HD, ["src/hdagg/hdagg.cpp"], [("ungroupingScheduleAndApplyOrdering", "src/hdagg/hdagg.cpp"), ("buildGroupDAG", "src/hdagg/hdagg.cpp")])
p("P14", "Partial sparsification keeps exactly the reachability of the DAG",
  "The pruned DAG has a subset of the original edges, keeps columns sorted with every diagonal entry first, and a node reaches another in it exactly when it did in the original DAG. This holds with any number of threads, and threads do not race.",
  ["inputs", "schedules"], "every lower triangular pattern up to the bounds; race check over every pair of iterations", HD, ["src/hdagg/hdagg.cpp"], [("partialSparsification", "src/hdagg/hdagg.cpp")])
p("P15", "Post-orders visit every node once, children before parents",
  "The post-order routines return, for every lower triangular DAG, a permutation of its nodes that is a topological order; the combined post-order-and-group routine returns non-empty groups covering that permutation, and every dependence lies inside a group in order or is an edge of its lower triangular group DAG.",
  ["inputs"], "every lower triangular pattern up to the bounds", HD, ["src/hdagg/hdagg.cpp"], [("computePostOrder", "src/hdagg/hdagg.cpp"), ("computePostOrderAndGroup", "src/hdagg/hdagg.cpp")])
p("P16", "Node costs match the work of the selected kernel",
  "For every pattern, grouping and kernel kind, the cost routine assigns to each node the number of nonzeros the kernel touches for it and to each group the sum of its nodes' costs, whatever the cost vector held before and even if it was empty.",
  ["inputs", "configurations"], "every lower triangular pattern up to the bounds x 7 kernels x grouping", HD, ["src/hdagg/hdagg.cpp"], [("costComputation", "src/hdagg/hdagg.cpp")])
p("P17", "Transformations of a schedule keep it complete and ordered",
  "The final DAG derived from a schedule has the non-empty partitions as groups and exactly the edges between them, in topological order. Two-dimensional reordering visits every nonzero exactly once inside the partition of its row, updates before the division and divisions before their uses. Converting a group schedule to supernodes keeps levels and partitions with every supernode exactly once, and the HDagg elimination tree and row patterns equal those of the Cholesky factor.",
  ["inputs"], "every lower triangular pattern / valid schedule up to the bounds", HD, ["src/hdagg/hdagg.cpp"], [("twoDReordering", "src/hdagg/hdagg.cpp"), ("convertCNScheduleToSuperNode", "src/hdagg/hdagg.cpp"), ("aggressiveSupernodeGrouping", "src/hdagg/hdagg.cpp"), ("buildETree", "src/hdagg/hdagg.cpp")])
p("P18", "Every scheduled triangular solve computes the serial solution",
  "For every sparse lower triangular matrix with nonzero diagonal, every right-hand side and every valid schedule of its rows (empty partitions allowed), the serial, level-set, LBC and grouped triangular-solve executors produce the solution of forward substitution, whatever the values. Statistics variants report no imbalance on one thread and exact operation counts.",
  ["inputs", "configurations"], "every lower triangular pattern up to the bounds with unconstrained values (uninterpreted arithmetic) and right-hand sides x schedule kind", "the tests compare three matrices with one right-hand side", ["example/sptrsv_src/executor.cpp", "utils/sparse_inspector.cpp"], [("sptrsv_csr, sptrsv_csr_levelset, sptrsv_csr_lbc, sptrsv_csr_group*", "example/sptrsv_src/executor.cpp")])
p("P19", "Parallel loops never make two threads conflict on one location",
  "In the parallel triangular-solve executors, grouping, group-DAG construction, cost computation and schedule conversion, for every input and every assignment of loop iterations to threads, two iterations that may run concurrently never access the same memory location with one of them writing.",
  ["inputs", "schedules"], "every pattern and schedule up to the bounds; every pair of iterations of each parallel loop", "the test build has no threads", ["example/sptrsv_src/executor.cpp", "src/hdagg/hdagg.cpp"], [("#pragma omp parallel for regions", "src/hdagg/hdagg.cpp, example/sptrsv_src/executor.cpp")])

SP = "the tests convert three fixed square matrices with values and only look at the solution of one solve"
p("P20", "Converting, transposing and copying a sparse matrix keeps the matrix",
  "For every sparse matrix, rectangular or square, with or without values, conversion between compressed columns and compressed rows, transposition and copying give a well-formed matrix with the same dimensions (swapped for a transpose) and exactly the same entries and values, each stored once with indices sorted. Copies own their arrays, the source is unchanged, and no array is accessed out of bounds.",
  ["inputs"], "every m x n pattern up to the bounds with unconstrained values, valued or pattern only, sorted or unsorted columns", SP, ["utils/sparse_utilities.cpp", "include/aggregation/def.h"],
  [("csc_to_csr, csr_to_csc, transpose_general, copy_sparse, copy_from_to", "utils/sparse_utilities.cpp"), ("CSC, CSR", "include/aggregation/def.h")])
p("P21", "Symmetric and structural matrix operations compute what they promise",
  "For every matrix within their domain: taking a half keeps exactly that triangle and says which one; expanding a half gives the full symmetric matrix; the symmetric transpose gives the other triangle of PAP' and refuses a sequence that is not a permutation; a sum holds alpha*A+beta*B on the union of the patterns; symmetrising gives (A+A')/2; permuting rows and columns moves each entry to its place; the dense copy equals the sparse matrix; tridiagonal and diagonal builders give those matrices. Inputs are unchanged and no memory is misused.",
  ["inputs"], "every n x n pattern up to the bounds with unconstrained values x triangle x valued or pattern x permutation", SP, ["utils/sparse_utilities.cpp"],
  [("make_half, make_full, transpose_symmetric, add, make_symmetric, permute_general, sparse2dense, tridiag, diagonal", "utils/sparse_utilities.cpp")])

p("P22", "LBC packs w-partitions so that their costs are balanced",
  "For every DAG, tree or supernodal matrix, every vector of positive node costs and every parameter choice, in each level where LBC packs several connected components into one w-partition, no component of a w-partition could move to another w-partition of the level and lower the larger of the two costs, and the level has no more w-partitions than requested. The bin packing itself places every component whole and exactly once, keeps its order, and reports the cost of each bin.",
  ["inputs", "configurations"], "as P01, plus larger skeletons (parallel chains, layers) with any few edges toggled and symbolic costs; bin packing of any component costs", "no test looks at the cost of a partition",
  ["src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/lbc_blocked.cpp", "src/lbc_tree.cpp", "src/lbc_utils.cpp"], [("worst_fit_bin_pack, find_min", "src/lbc_utils.cpp"), ("outCost / newOutCost bookkeeping", "src/lbc_csc.cpp, src/lbc_csc_dag.cpp, src/lbc_blocked.cpp, src/lbc_tree.cpp"), ("post_order_spliting", "utils/sparse_utilities.cpp")])

p("P23", "Graph, tree, permutation and size helpers compute what their names promise",
  "Fusing k graphs puts each in its own diagonal block and adds exactly the given (or one-to-one) dependences between consecutive copies. Coarsening by k connects two blocks exactly when some of their members are connected. Children lists, depths, heights, subtree costs and the matrix of a tree match the tree; splitting a forest puts each tree in one part, children first. Inverse permutations and reordering undo each other; norms and residuals are exact; size arithmetic reports every overflow. Inputs are unchanged and memory is released.",
  ["inputs"], "every pattern, forest and permutation up to the bounds; symbolic weights, costs and 64-bit sizes", "no test calls these helpers on their own", ["utils/sparse_utilities.cpp", "utils/utils.cpp", "utils/sparse_inspector.cpp"],
  [("merge_graph, merge_DAGs_with_partial_order, coarsen_k_times", "utils/sparse_utilities.cpp"), ("populate_children, get_tree_height*, compute_subtree_cost, tree_to_csc, post_order_spliting", "utils/sparse_utilities.cpp"), ("add_size_t, mult_size_t", "utils/utils.cpp")])
p("P24", "Supernodal storage and fused block graphs represent the matrix exactly",
  "Detected supernodes partition the columns into the widest runs of nested patterns (within the width limit). For every matrix and every choice of blocks, the blocked format stores each block over the sorted union of its rows with the original values and zero padding only, and its block graph has an edge exactly where a block has an entry. The graph fused from two triangular solves and a product between them has exactly their block dependences, and its level sets hold each block once, right after the last block it depends on.",
  ["inputs", "configurations"], "every pattern up to the bounds with unconstrained values x every partition of the columns into blocks", "no test builds the blocked format or a fused graph", ["utils/BCSCMatrix.cpp", "utils/sparse_inspector.cpp", "include/aggregation/BCSCMatrix.h"],
  [("BCSCMatrix::supernodes, calcSize, createFormat, compressed_BCSC_to_CSC", "utils/BCSCMatrix.cpp"), ("merge_graphs, bcsc_csc_bcsc_levelset, sup2node_gen, find", "utils/sparse_inspector.cpp")])

p("P25", "Elimination trees and symbolic factorization match dense elimination",
  "For every matrix pattern the elimination tree (of a symmetric matrix given by its upper half, or of A'A), the row patterns, the row and column counts, first descendants, levels and flop count, and the pattern of the factor equal those of eliminating the dense pattern. Post-orders visit each subtree contiguously with the root last, siblings in order of weight or index. The symbolic factorization uses the fill-reducing ordering it was given, composed with a post-order, and everything it reports belongs to the reordered matrix. Unsupported halves are refused, inputs and marks are unchanged, memory is released.",
  ["inputs"], "every symmetric or rectangular pattern, forest and ordering up to the bounds; symbolic weights", "no test calls the symbolic factorization", ["utils/etree.cpp", "utils/lfactor_creation.cpp", "utils/sparse_inspector.cpp"],
  [("compute_etree, update_etree", "utils/etree.cpp"), ("tree_post_order, row_col_counts_symmetric, build_L_pattern_from_col_counts, build_symbolic_simplicial_lfactor", "utils/lfactor_creation.cpp"), ("ereach, dfs_tree", "utils/sparse_inspector.cpp")])
p("P26", "Orderings and partitions are computed on the graph of the matrix",
  "For every symmetric matrix, given by either half or in full, with or without diagonal entries, the graph handed to METIS is a valid METIS graph: it has one vertex per column, exactly the off-diagonal entries in both directions, each once, and no self loops, inside its arrays. The ordering or partition METIS returns comes back unchanged (parts numbered from 0); after coarsening every column gets the part of its block. The matrix is unchanged and memory is released.",
  ["inputs", "configurations"], "every symmetric pattern up to the bounds x every answer of METIS", "no test calls the METIS interface", ["utils/metis_interface.cpp", "utils/sparse_utilities.cpp"],
  [("metis_perm_*, metis_partition_*, metis_partitioning", "utils/metis_interface.cpp"), ("coarsen_k_times", "utils/sparse_utilities.cpp")])

p("P27", "Row grouping partitions the rows into groups that execute in dependence order",
  "For every lower triangular matrix, the grouping of rows or columns for the triangular solve and the incomplete Cholesky puts every row into exactly one non-empty group, with a matching inverse map; rows inside a group come after the rows they depend on and the groups have no cyclic dependence. The plain variants group exactly the runs of consecutive rows that each depend on their predecessor; naive grouping cuts equal blocks. The dependence graphs of rows and of groups have exactly the dependences of the matrix. The matrix is unchanged, no array is overrun, and parallel construction has no races.",
  ["inputs", "schedules"], "every lower triangular pattern up to the bounds and larger skeletons with a few edges toggled x every partition of the rows into groups", "no test calls the row grouping", ["src/group.cpp", "src/group_utils.cpp", "include/aggregation/group.h"],
  [("inspection_sptrsvcsr_v1, _v2, inspection_spicocsc_v1, _v2, NaiveGrouping", "src/group.cpp"), ("fs_csr_inspector_dep, fs_ic0csc_inspector_group, Group_DAG", "src/group_utils.cpp")])
p("P28", "Flat partitions keep every element; comparisons tell equal from different",
  "Splitting a set or the nodes of a DAG by weight gives the requested number of consecutive parts that hold every element exactly once; every part but the last stops as soon as it reaches its target weight (an even share by default); nodes of a DAG are taken in breadth-first order. Merging parts by cost keeps them whole and reports their costs. Vectors and matrices compare equal exactly when dimensions, patterns and values agree within the tolerance, and never when a value is not a number; right-hand sides belong to a solution of ones; medians, sums and permutation tests are exact.",
  ["inputs"], "every set, DAG, weight vector, target vector, number of parts and tolerance up to the bounds", "the tests use these helpers as their oracle but do not test them", ["utils/utils.cpp", "utils/test_utils.cpp", "include/aggregation/test_utils.h", "src/lbc_utils.cpp"],
  [("partition_by_weight, partition_by_bfs, time_median", "utils/utils.cpp"), ("is_equal, rhs_init, rhs_init_blocked, test_unique", "utils/test_utils.cpp"), ("merge_inner_part", "src/lbc_utils.cpp")])
p("P29", "Reading a matrix gives exactly the entries of the file, or a refusal",
  "A Matrix Market file (coordinate, real, integer or pattern, general or symmetric; entries in any order, with comments, blanks and letter case as the format allows) is read as the matrix of the stated size holding exactly its entries, compressed by sorted columns, with empty columns empty or, where asked, given a zero diagonal; a symmetric file is marked as a lower half. Dense arrays and triplets are assembled the same way. Malformed headers, unsupported types, missing files, incomplete entries and entries outside the matrix are refused; no byte sequence makes a reader access memory out of bounds or loop for ever.",
  ["inputs", "fault_sequences"], "every set of entry positions and order up to the bounds x decimal spellings x layout variants; every single-byte damage and truncation of the header; every byte sequence up to the bound in place of the entries", "the demos read one well-formed file ordered by columns", ["utils/sparse_io.cpp", "utils/external/mmio.cpp", "include/aggregation/sparse_io.h", "include/aggregation/utils.h"],
  [("read_mtx, read_mtx_csc_real, read_mtx_array_real, compress_triplets_to_csc, dense_to_csc, convert_to_one_based", "utils/sparse_io.cpp"), ("mm_read_banner, mm_read_mtx_crd_size", "utils/external/mmio.cpp"), ("strip_name", "utils/utils.cpp")])
p("P30", "A written matrix reads back as the same matrix",
  "Writing a matrix (column or supernodal storage, plain print-outs, Matrix Market triplets of every type) produces the stated banner and sizes followed by every stored entry exactly once with 1-based indices and its value, and nothing else; reading the file back gives the same size, type, pattern and values; writers report success when they succeed and refuse the types they do not support; the matrix is left unchanged.",
  ["inputs"], "every pattern up to the bounds x values from a table x every Matrix Market type", "no test writes a matrix", ["utils/sparse_io.cpp", "utils/external/mmio.cpp", "include/aggregation/mmio.h"],
  [("CSC_to_mtx, BCSC_to_mtx, print_csc, print_csr, print_dense", "utils/sparse_io.cpp"), ("mm_write_banner, mm_write_mtx_crd, mm_read_mtx_crd, mm_read_mtx_crd_data", "utils/external/mmio.cpp")])
p("P31", "Parallel component labelling is right under every interleaving",
  "The parallel connected-component labelling of a slice of wavefronts (LBC, HDAGG and GLC), whose threads update one label array without locks, ends for every interleaving of its threads with two nodes of the slice sharing a label exactly when they are connected inside it, labels in range, nodes outside the slice untouched, and component and total costs equal to the sums of the node costs; all other shared accesses are free of data races.",
  ["schedules", "inputs"], "every DAG up to the bounds x every slice of its wavefronts x every interleaving of 2 or 3 threads with up to the stated number of preemptions at accesses of the label array", "a test runs one schedule of the operating system; the bundled build does not even enable OpenMP", ["src/lbc_csc_dag.cpp", "src/hdagg/hdagg.cpp"],
  [("parallel_cc", "src/lbc_csc_dag.cpp"), ("parallel_cc, computeCC", "src/hdagg/hdagg.cpp")])

p("P32", "Inspecting and executing a schedule gives the solution of the system",
  "For every sparse lower triangular matrix with any values and every right-hand side, converting the matrix to rows, building a schedule with any of the inspectors (LBC for DAGs, its CSC03 and parallel variants, tree LBC, level sets, HDAGG, GLC, or row grouping followed by level sets or LBC on the groups) and running the matching executor gives the solution of forward substitution, also when the rows of each w-partition are sorted first and when the matrix was reordered symmetrically by any fill-reducing permutation before.",
  ["inputs", "configurations"], "every lower triangular pattern up to the bounds with unconstrained values and right-hand sides x inspector/executor pair x parameters x permutation", "the tests and demos run three matrices with one set of parameters", ["src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/hdagg/hdagg.cpp", "src/group.cpp", "utils/sparse_utilities.cpp", "example/sptrsv_src/executor.cpp"],
  [("csc_to_csr, make_full, make_half, transpose_symmetric", "utils/sparse_utilities.cpp"), ("get_coarse_levelSet_DAG_CSC*, get_coarse_Level_set_DAG_CSC03*", "src/lbc_csc.cpp, src/lbc_csc_dag.cpp"), ("HDAGG, GLC_V2", "src/hdagg/hdagg.cpp"), ("group, fs_csr_inspector_dep", "src/group.cpp, src/group_utils.cpp")])

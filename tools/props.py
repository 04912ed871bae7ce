P = []
NA = {}


def p(id, title, statement, over, qtext, why, files, mech, tech, note, **kw):
    ms = []
    for x in mech.split(';'):
        n, _, w = x.partition('@')
        ms.append({'name': n.strip(), 'where': w.strip() or files[0]})
    a = {'files': files, 'mechanism': ms}
    a.update(kw)
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a, 'tech': tech, 'note': note})


def na(id, title, statement, over, qtext, why, files, mech, reason):
    p(id, title, statement, over, qtext, why, files, mech, '', '')
    NA[id] = reason


MM = ['goko/src/monomap/read.rs', 'goko/src/monomap/write.rs', 'goko/src/monomap/mod.rs', 'goko/src/monomap/inner.rs']
TRUST = ('Necessary conditions decided on all paths of the compiler\'s MIR (callees inlined); trusts rustc\'s MIR, the '
         'models of std/rayon calls and the C11 reasoning written in DESIGN.md. Not a proof of the whole protocol.')

p('M01', 'A read never overlaps a change or the freeing of the copy it uses',
  'While any thread is reading a tree node or layer, the copy of the data it reads is neither changed nor freed, whatever the writer '
  'does meanwhile (refresh, further inserts, being dropped) and also when reads are nested or the reader\'s callback panics. '
  'The writer waits for exactly the readers that can still hold the copy it is about to change, and a finished reader never blocks it.',
  ['schedules', 'histories'], 'every interleaving of one writer with any number of readers, handles created at any time, writer dropped at any time',
  'The unit tests are single threaded or run one lucky schedule; the windows (between announcing and loading, between the swap and the sampling) are a few instructions wide.',
  MM, 'epoch announce/fence/load/release in the read handle; lock/wait/mutate/swap/fence/sample in refresh and drop of the write handle; who may touch the shared pointer',
  'typestate over all paths of the inlined MIR, memory-ordering lint, decision table of the wait condition, who-may-call', TRUST)
p('M02', 'Every write reaches both copies exactly once, in order',
  'Each insert, update, remove or purge made through a writer takes effect exactly once on each of the two copies, in the order issued, '
  'with the same effect on both, no matter how writes and refreshes are interleaved.',
  ['histories'], 'every sequence of writes and refreshes',
  'Tests exercise a handful of short sequences; a lost or doubled replay needs a particular pattern of writes between refreshes.',
  MM, 'operation log with a split index: the old part is drained onto the stale copy, the rest is replayed and kept; writes before the first publish go to the copy directly',
  'path-sensitive event counting, guard comparison and effect equality of the two replay routines on MIR', TRUST)
p('M03', 'After a refresh readers see everything written before it, never part of it',
  'Once a refresh (or a flush with unpublished writes) returns, every later read sees all writes issued before it, together with the current metadata; '
  'before the first refresh and after the writer is gone reads report absence instead of data.',
  ['histories', 'schedules'], 'every sequence of writes, refreshes, flushes and reads',
  'Visibility after every history cannot be sampled; the tests refresh after each write.',
  MM, 'the updated copy is completed before it is published with a single swap; readiness flag tested by readers; flush decision',
  'ordering and dominance of publication events, decision table of flush, guard analysis of lookups on MIR', TRUST)

NODE = 'goko/src/covertree/node.rs'
TREEF = 'goko/src/covertree/tree.rs'
DSB = 'goko/src/covertree/data_caches.rs'
BLD = 'goko/src/covertree/builders.rs'
LAY = 'goko/src/covertree/layer.rs'
STAT = ('Necessary and sufficient conditions on the shape of the data flow, decided on all paths of the MIR with callees inlined; '
        'trusts rustc\'s MIR and the models of std calls. Floating point values and distances are treated as opaque quantities.')

p('T01', 'A saved tree loads back as the same tree',
  'Saving a cover tree and loading it over the same point cloud reproduces it: the same root, the same layers with the same scales in the same order, and for every node '
  'the same address, parent, radius, coverage count, children (nested scale and other addresses, in order) and singletons, '
  'the same parameters (base, cutoff, resolution, partition type, singleton use), and a point lookup that finds the same final address for every point.',
  ['inputs'], 'every tree that can be built, with every combination of parameters, with and without children and singletons',
  'The existing test saves one small tree and compares a few fields of a few nodes.',
  [NODE, TREEF, LAY, 'goko/src/utils.rs'], 'node/layer/tree to and from the protobuf messages @ goko/src/covertree/node.rs load/save, goko/src/covertree/layer.rs, goko/src/covertree/tree.rs load/save, goko/src/utils.rs save_tree/load_tree',
  'symbolic composition of the field maps of load after save on MIR, field by field, per presence case', STAT)
p('T02', 'Every scale index and address selects the layer and node it names',
  'Scale s of a tree with minimum resolution m lives in layer 0 if s < m and in layer s-m+1 otherwise; the tree is built with exactly the layers for m-1, m, ..., root scale in this order; '
  'looking up, updating or inserting a node by its address (scale, centre) reaches the node stored under this centre in this layer, from the writer, its readers and clones of readers; '
  'layers() walks from the root down pairing each layer with its scale, and scale(i) is scale_base^i.',
  ['inputs'], 'every scale index, every minimum resolution and root scale, every address',
  'An off-by-one at the bottom layer only shows for points closer than the minimum resolution.',
  [TREEF, BLD, LAY], 'scale to layer arithmetic and the accessors that use it @ goko/src/covertree/tree.rs internal_index/layer/layers/scale_range/get_node_and/insert_raw/update_node; goko/src/covertree/builders.rs build',
  'interval/cell evaluation of the index arithmetic, dataflow from address components to map keys on MIR', STAT)
p('T03', 'Coverage counts equal the number of points under a node',
  'A fresh node covers one point (its centre) and has no children; adding n singletons adds n and stores each of them; adding a child that covers n points adds n and stores its address; '
  'nesting a child that covers n points adds n-1 (the centre is not counted twice) and records its scale; the published copy of a node equals the one written; '
  'children_len counts the nested child and the others, and coverage_count, singletons, radius, address and parent_address return what was stored (set_radius stores the value it is given; detaching the children changes nothing else).',
  ['inputs', 'histories'], 'every sequence of insertions into a node, every coverage value including 0 and 1',
  'Tests check the count of one hand-built node.',
  [NODE], 'coverage counter and the lists it accounts for @ goko/src/covertree/node.rs insert_singletons/insert_singleton/insert_child/insert_nested_child/children_len/clone',
  'cell evaluation of the counter updates per path, must-store analysis on MIR', STAT)
p('T07', 'A k-nearest-neighbour query returns the k closest points',
  'knn(point, k) returns the k points of the tree at smallest distance to the query in order of distance, or all points if there are fewer than k: a subtree is only skipped when '
  'k results are held and the lower bound of its distance is not below the worst of them, every other subtree is visited, every singleton and centre met is offered, '
  'and an offered point is only refused when it cannot improve a full result. routing_knn likewise keeps going until no unvisited routing node can improve the result.',
  ['inputs'], 'every tree, query point and k',
  'Whether a pruned subtree could have held a closer point depends on geometry a handful of tests do not sample.',
  ['goko/src/covertree/query_tools/knn_query_heap.rs', 'goko/src/covertree/query_tools/mod.rs', TREEF, NODE], 'child and singleton heaps, their bounds and the query loop @ goko/src/covertree/query_tools/knn_query_heap.rs; goko/src/covertree/tree.rs knn/routing_knn/greedy_knn_nodes; goko/src/covertree/node.rs singleton_knn/child_knn',
  'decision tables of the pruning/refusal conditions over all orderings, must-offer dataflow, loop exit analysis on MIR', STAT)
p('T08', 'Query results are distinct points, at most k, with their own distances, in order',
  'The list a knn or routing_knn query returns holds at most k entries (exactly k when the tree holds at least k points), no point twice, each with the distance of that very point to the query, sorted from closest to furthest.',
  ['inputs'], 'every tree, query point and k, with ties and duplicate offers',
  'Ties, repeated offers of nested centres and k at or above the size of the tree are not in the tests.',
  ['goko/src/covertree/query_tools/knn_query_heap.rs', 'goko/src/covertree/query_tools/query_items.rs'], 'bounded result heap, its eviction, duplicate check and final order @ goko/src/covertree/query_tools/knn_query_heap.rs; ordering of heap entries @ goko/src/covertree/query_tools/query_items.rs',
  'cell evaluation of heap operations over all size/membership cases, comparator direction analysis, dataflow pairing of distance and index on MIR', STAT)
p('T04', 'Splitting a node places every covered point exactly once',
  'When the builder splits a node, each point it covers ends up in exactly one of: the nested part, one of the other parts, or the singletons. With the first partition a point joins a part iff it is strictly closer '
  'to its centre than the radius base^scale of the split, and centres are drawn from the uncovered points until none is left; with the nearest partition centres are drawn from the uncovered points until every point is strictly within the radius of one, '
  'and each point joins its nearest centre. A centre is never listed among the points it covers. A node with at most leaf_cutoff points or below the minimum resolution becomes a leaf that keeps its points as singletons; '
  'otherwise it is split at scale min(scale-1, max(ceil(log_base radius), min_res_index)). Parts of one point become singletons iff use_singletons is set; other parts become children with their own size, address and parent; '
  'the recorded radius is the largest distance of a covered point.',
  ['inputs'], 'every point cloud (ties and duplicates included), every parameter set, every random choice of centres',
  'Tests build a few small clouds with one seed; losing or doubling a point needs a point exactly at a radius, a part of one point or a lone child.',
  [DSB, BLD], 'partitioning of covered points @ goko/src/covertree/data_caches.rs; turning parts into children and singletons @ goko/src/covertree/builders.rs split/split_first/split_nearest',
  'cell evaluation of the partition conditions, one-element abstract execution of the loops that distribute points, loop exit analysis on MIR', STAT)
p('T05', 'Every indexed point knows its final address and its path from the root',
  'When a tree is built (and again after refresh_final_indexes) the final address of every singleton is the address of the node that holds it and the final address of the centre of every leaf is that leaf; inner nodes do not claim their centre. '
  'known_path(i) returns the nodes from the root down to the final address of point i following the parent links, each with the distance of point i to the centre of that node; '
  'for a point that is not in the tree it is an IndexNotInTree error naming it.',
  ['inputs'], 'every tree and every point index',
  'The tests look up five points of one tree.',
  [TREEF, BLD], 'recording of final addresses @ goko/src/covertree/builders.rs build, goko/src/covertree/tree.rs refresh_final_indexes; parent walk @ goko/src/covertree/tree.rs known_path',
  'cell evaluation of the recording conditions, work-list closure analysis, order/pairing dataflow on MIR', STAT)
p('T06', 'A query path descends into the covering child the partition type prescribes',
  'path(point) starts with the root and its distance and continues, until no child covers the point, with the covering child of the current node. In a nearest tree that is the nearest of the nested child (at the distance of the current centre) and the other children, '
  'provided the point is strictly closer than base^(scale of that child), otherwise the path ends; in a first tree it is the nested child if the point is strictly within base^(nested scale), else the first other child, in order, with the point strictly within base^(its scale). '
  'Each entry pairs the address of a node with the distance to its centre.',
  ['inputs'], 'every tree of either partition type and every query point',
  'Boundary distances, first trees and nodes without other children are not covered by the tests.',
  [TREEF, NODE], 'descent loop @ goko/src/covertree/tree.rs path; child choice @ goko/src/covertree/node.rs nearest_covering_child/first_covering_child',
  'cell evaluation of the choice over all orderings of the distances and radii, loop-carried value analysis, loop exit analysis on MIR', STAT)
p('T09', 'With a seed the tree does not depend on entropy or scheduling',
  'With rng_seed set, every random choice made while building uses a generator created for that node from (seed xor index of the centre of the node) only, never operating system entropy, time, a thread or a counter, and no generator is shared between nodes; '
  'entropy is used only when no seed is given. The seed of the builder is the seed of the tree.',
  ['inputs', 'schedules'], 'every seed, point cloud and thread schedule',
  'A run-to-run difference needs a particular interleaving of worker threads, or an unseeded choice that happens to matter.',
  [BLD, DSB], 'per-node generator @ goko/src/covertree/builders.rs split_first/split_nearest; its uses @ goko/src/covertree/data_caches.rs pick_center/cover_thyself',
  'dataflow of the generator and its seed, entropy-source reachability with guard evaluation on MIR', STAT)
p('T10', 'A build finishes with every node inserted and published',
  'Building sends exactly one message per scheduled node (the split node under its own scale and centre, or its error), schedules every child it creates, counts one outstanding node for the root and one per child, inserts and counts each received node once, '
  'stops exactly when all outstanding nodes are inserted, and publishes every layer and the final addresses before returning; refresh publishes every layer. Building never panics on the number of layers, also when all points coincide.',
  ['schedules', 'inputs'], 'every schedule of the worker threads and every point cloud',
  'A lost message or child hangs or truncates the tree only for shapes and interleavings the tests do not hit.',
  [BLD, TREEF], 'message passing and counting of outstanding nodes @ goko/src/covertree/builders.rs build/split_parallel; publication @ goko/src/covertree/tree.rs refresh',
  'event counting per path, cell evaluation of the termination condition, ordering of publication after insertion on MIR', STAT)
p('T11', 'Builder parameters reach the tree unchanged',
  'Each builder setter sets exactly its own parameter; a yaml configuration fills each parameter from the key of the same name (partition_type "first" selects first, anything else nearest) and uses the default when the key is missing '
  '(scale_base 2, leaf_cutoff 1, min_res_index -10, use_singletons true, verbosity 2, no seed); the tree is built with exactly the parameters of its builder over the given point cloud.',
  ['inputs'], 'every combination of parameters and configuration keys',
  'No test reads a yaml configuration or varies most parameters.',
  [BLD], 'setters, from_yaml and the construction of CoverTreeParameters @ goko/src/covertree/builders.rs',
  'field-sensitive dataflow and cell evaluation of defaults on MIR', STAT)
PL = 'goko/src/plugins/'
p('P01', 'Attaching a plugin computes every node after the nodes below it',
  'add_plugin first prepares the tree, then computes the component of every node of every layer exactly once, layer by layer from the finest to the coarsest, so that the component of a node sees the components of its children already published; '
  'whatever component is returned is stored in that very node (a node for which none is returned gets none), each layer is published before the layer above it is computed, and the plugin is registered with the tree.',
  ['inputs'], 'every tree and every plugin',
  'The tests attach plugins to one five point tree.',
  [TREEF, 'goko/src/plugins/mod.rs'], 'layer loop, update and publication @ goko/src/covertree/tree.rs add_plugin',
  'loop order, must-reach and event order analysis on MIR', STAT)
p('P02', 'Node components account for every covered point exactly once',
  'The component a plugin computes for a node is made of: for a leaf, its singletons and its centre; for a routing node, its singletons, the component of its nested child and the component of each other child - each exactly once, none missing. '
  'This holds for label summaries, metadata summaries, the list of covered indexes (kept iff coverage_count is below the limit), the child/singleton populations of Dirichlet and Categorical (each child under its own address with its own total), '
  'and recursive diagonal gaussians (non-recursive ones hold the singletons only, plus the centre on a leaf).',
  ['inputs'], 'every tree shape',
  'A part that is dropped or doubled only for some node shapes (no singletons, no children besides the nested one) is not seen on the one tree of the tests.',
  [PL + 'labels.rs', PL + 'utils.rs', PL + 'discrete/dirichlet.rs', PL + 'discrete/categorical.rs', PL + 'gaussians/diag_gaussian.rs'],
  'node_component of each plugin @ goko/src/plugins',
  'cell evaluation of what flows into the component over all node shapes on MIR', STAT)
p('P03', 'Discrete distributions count exactly what was added',
  'For Categorical and Dirichlet: adding a count changes only the entry of that child (inserted at its sorted position if new) or the singleton count; removing subtracts it but never goes below zero and never removes or creates an entry; '
  'total is the singleton count plus all child counts; merging evidence adds each child count and the singleton count once; prob_vector is each count divided by the total, present iff the total is positive; '
  'ln_pdf is ln(count) - ln(total) of the place asked for (count 0 for unknown children; for Categorical present iff the total is positive); weight scales every count; an observation counts 1; '
  'sample draws below the total and returns the first child whose cumulative count exceeds the draw, else none. Every lookup uses the order of insertion.',
  ['inputs'], 'every sequence of additions and removals, every address, every weight',
  'Tests use one or two entries; order of keys, clamping at zero and unknown children are not exercised.',
  [PL + 'discrete/categorical.rs', PL + 'discrete/dirichlet.rs'], 'counts and probabilities @ goko/src/plugins/discrete/categorical.rs, goko/src/plugins/discrete/dirichlet.rs',
  'cell evaluation of every update, canonical polynomial comparison of the sums, comparator analysis on MIR', STAT)
p('P04', 'A tracker holds exactly the evidence of the paths in its window',
  'Adding a path counts, at each node of the path, one step into the next node, and one stop at the last node; the oldest path is dropped and its counts taken back, step by step, exactly when a window is set and more paths than the window are held; '
  'without a window nothing is remembered but the number of paths. sequence_len is the number of paths held (all paths without a window). append adds all evidence, paths and the number of paths of the other tracker. '
  'prob_vector of a node combines the prior of that node with the evidence of that node only; all_node_kl has one entry per node with evidence that is in the tree; kl_div_stats counts, sums, squares, and takes maximum and minimum over exactly the divergences above 1e-10.',
  ['inputs', 'histories'], 'every sequence of paths, every window, every tree',
  'The tests add two paths without a window.',
  [PL + 'discrete/tracker.rs'], 'evidence, window and statistics @ goko/src/plugins/discrete/tracker.rs',
  'unrolled evaluation of the loops over paths of 1 to 5 nodes, cell evaluation of the window and statistics, dataflow of keys on MIR', STAT)
p('P05', 'Gaussian moments follow the points added, removed and merged',
  'DiagGaussian::add_point adds each coordinate to the first moment, its square to the second moment and one to the count; remove_point undoes exactly that (nothing when empty); merge adds moments and count of the other one; mean is moment1/count and var is moment2/count - mean^2 per coordinate, zeros when empty. '
  'moment_1 and moment_2 of a point cloud are the coordinate-wise sums of the values, respectively squares, over all the given indexes, or the error of the point that cannot be read.',
  ['inputs'], 'every point, dimension and sequence of operations',
  'Removal is never tested, and the tree test has dimension one.',
  [PL + 'gaussians/diag_gaussian.rs', 'pointcloud/src/base_traits.rs'], 'moments @ goko/src/plugins/gaussians/diag_gaussian.rs; moment_1/moment_2 @ pointcloud/src/base_traits.rs',
  'per-coordinate cell evaluation of every update on MIR', STAT)
p('P06', 'Densities and divergences are the formulas they are named after',
  'Categorical::kl_divergence is the sum of p ln(p/q) over the children (and the singletons) to which both give weight, and absent when either total is zero. '
  'Dirichlet::kl_divergence of two Dirichlets over the same children with positive parameters is ln G(A) - sum ln G(a) - ln G(B) + sum ln G(b) + sum (a-b)(psi(a) - psi(A)), never below zero; '
  'Dirichlet::posterior_kl_divergence is the divergence of the prior from the prior plus the evidence, never below zero, and absent when the evidence names a child the prior does not have. '
  'For DiagGaussian with mean m and variance v per coordinate, ln_pdf(x) is -1/2 sum((x-m)^2/v + ln v + ln 2 pi), kl_divergence with a second one (n, w) is 1/2 sum(v/w + (n-m)^2/w - 1 + ln(w/v)), and sample is m plus the square root of v times a standard normal draw, per coordinate. '
  'kl_div of a Bayesian tracker is the Dirichlet divergence, over the whole tree, of the prior from the posterior given all running evidence: every node with singleton evidence counts one prior singleton more, the prior total is the root\'s total plus the number of nodes, the posterior total that plus the sequence length, never below zero.',
  ['inputs'], 'every distribution, evidence, dimension and point',
  'The tests evaluate one or two distributions of two children, where swapped arguments or a lost term often agree; no test evaluates a gaussian density or divergence.',
  [PL + 'discrete/categorical.rs', PL + 'discrete/dirichlet.rs', PL + 'discrete/tracker.rs', PL + 'gaussians/diag_gaussian.rs'], 'kl_divergence, posterior_kl_divergence, ln_pdf, sample, kl_div @ goko/src/plugins',
  'extraction of the closed form each path returns (folds and loop-carried sums included) from MIR and comparison with the reference formula as an expression', STAT)
PC = 'pointcloud/src/'
p('D01', 'A dense cloud returns exactly the rows it was given',
  'DataRam and DataMemmap over n values of dimension d hold the points 0..n/d: point(i) is exactly the values i*d .. i*d+d, an error for any other i; len, dim and is_empty agree with it; reference_indexes and names run over 0..len in order; name(i) spells i and index parses it back. '
  'DataRam::new keeps the values and accepts exactly lengths divisible by the dimension; merge appends the other cloud\'s values unchanged and refuses another dimension; convert_to_ram and convert_to_labels keep all values, in order, and the dimension. '
  'Having no labels or metadata, label and metadata are absent and the summaries count every index asked for as unlabeled, none as an error.',
  ['inputs'], 'every content, dimension and index',
  'The tests read one point of one tiny cloud.',
  [PC + 'data_sources/memmap_ram.rs'], 'the PointCloud impls written by make_point_cloud, DataRam::new/merge, convert_to_ram/convert_to_labels @ pointcloud/src/data_sources/memmap_ram.rs',
  'slice-region and size evaluation over cells of (rows, dimension, index), dataflow of the stored values on MIR', STAT)
p('D02', 'A glued cloud is its sources one after the other',
  'HashGluedCloud::new numbers the points of its sources 0, 1, 2, ... consecutively in the order of the sources. point, label, name and metadata of an index are those of the source and place its address names, an error if it has none; label_summary and metasummary add each index asked for exactly once and fail on an unknown one; '
  'reindex moves each address from its old index to its new one, needs one pair per point, fails on an unknown old index and then changes nothing; '
  'len is the sum over the sources, is_empty is true iff no source has a point, dim that of the sources; reference_indexes are exactly the keys of the addresses; names are those of the addressed points and index gives an index of the glued cloud, not one of the source.',
  ['inputs'], 'every number and size of sources, every reindexing, every index',
  'The tests glue sources of equal size and never reindex or look up names.',
  [PC + 'glued_data_cloud.rs'], 'address table @ pointcloud/src/glued_data_cloud.rs new/reindex/get_address and the PointCloud impl',
  'dataflow of addresses, counter recurrence, guard evaluation of the error paths on MIR', STAT)
p('D03', 'Bulk distances and matrices are one entry per index, in order',
  'distances_to_point returns, for every k, the distance between the given point and the point of the k-th index, the same whether it runs serially or in parallel, for every dimension and number of indexes, or an error if any index cannot be read; distances_to_point_index is that for the point of the given index; '
  'point_dense_array is the point as an array of the cloud\'s dimension; points_dense_matrix has the k-th point asked for as its k-th row, or is an error if one cannot be read.',
  ['inputs', 'schedules'], 'every number of indexes (serial and parallel), dimension and schedule',
  'Tests ask for at most five distances; the parallel branch starts at 301 of them.',
  [PC + 'base_traits.rs'], 'distances_to_point, distances_to_point_index, point_dense_array, points_dense_matrix @ pointcloud/src/base_traits.rs',
  'provenance of each slot through zipped chunks, chunk-size cells, error-path dataflow on MIR', STAT)
p('D04', 'Labels and their masks stay attached to their points',
  'For SmallIntLabels and VecLabels (label i of VecLabels is the values i*dim .. i*dim+dim): label(i) is the stored label i, absent exactly if there is a mask whose bit i is off; label_summary adds the label of every index asked for whose bit is on (or if there is no mask) exactly once and counts every other index as unlabeled once, no errors; '
  'len is the number of labels, is_empty iff there are none, new keeps what it is given. Merging SmallIntLabels appends labels and mask bits in order; a side without a mask counts as all on; without any mask there is none after. '
  'one_hot_to_int gives each vector its first coordinate above 0.5 and masks the vectors without one; binary_to_int gives 1 above 0.5 and 0 otherwise; both keep masked vectors masked and give one label per vector.',
  ['inputs'], 'every label set, mask, index, dimension, and pair of sets merged',
  'The tests use three labels with one mask and never merge or convert.',
  [PC + 'label_sources/mod.rs'], 'LabelSet impls, merge, one_hot_to_int, binary_to_int @ pointcloud/src/label_sources/mod.rs',
  'cell evaluation over mask states, dimensions, indexes and thresholds; symbolic concatenation of mask bits on MIR', STAT)
p('D05', 'Summaries count every value exactly once',
  'SummaryCounter::add counts a value in its summary, an absent one in nones, an error in errors, each exactly once; combine adds the three of the other counter, count is their sum. '
  'CategorySummary keeps one entry per category holding how often it was added; StringSummary likewise; FloatSummary, IntSummary and, per coordinate, VecSummary hold the sum, the sum of squares and the count of the values added, from the first value on; '
  'combine gives what adding the values of both would give, also when either is empty; count is the number of values added.',
  ['inputs', 'histories'], 'every sequence of additions and combinations',
  'Node summaries are built by chains of add and combine that no test checks beyond the total.',
  [PC + 'summaries/mod.rs', PC + 'base_traits.rs'], 'Summary impls @ pointcloud/src/summaries/mod.rs; SummaryCounter @ pointcloud/src/base_traits.rs',
  'canonical polynomial comparison of each update, per-coordinate symbolic update in each empty/filled cell, flag-sensitive typestate for exactly-one-entry on MIR', STAT)
p('D06', 'Distances are the sum over every coordinate, dense or sparse',
  'L2::dist is the square root of the sum of squared coordinate differences and L1::dist the sum of absolute coordinate differences, for every supported value type (f32, i8, u8, i16, u16, i32, u32), for two vectors of any equal length: each coordinate goes into the sum exactly once, whether it is read in a SIMD chunk or after the last one, '
  'no coordinate is read past the end, and integers are converted to f32 before they are subtracted, so nothing wraps around. '
  'On sparse vectors with ascending indexes the sum is that of the vectors written out: an entry without counterpart is added alone, entries with equal indexes as their difference, none is left out or added twice, whichever vector is longer and if one or both are empty.',
  ['inputs'], 'every length (all residues of the chunk widths), value type and pattern of stored indexes',
  'The tests compare a few short vectors of one type; tails, ties and exhausted vectors depend on lengths and index patterns they do not have.',
  [PC + 'metrics/l2_f32.rs', PC + 'metrics/l2_misc.rs', PC + 'metrics/l1_f32.rs', PC + 'metrics/l1_misc.rs'], 'the dense, norm and sparse sums and the Metric impls @ pointcloud/src/metrics',
  'chunk read/step/accumulate accounting, branch-sensitive typestate of the sparse merge (pending entries against known index order), canonical polynomials of the summands on MIR',
  STAT + ' Rounding of floating point sums is outside.')
p('D07', 'A dense view of a point has exactly its coordinates',
  'dense and dense_iter of a slice point give every coordinate in order, converted to f32 unchanged. For a sparse point of dimension dim, dense and dense_iter give dim coordinates: the stored value at each stored index and zero everywhere else, also before the first and after the last stored index and with nothing stored; '
  'the iterator reads no entry past the stored ones. SparseRef::new keeps dimension, values and indexes and refuses values and indexes of different lengths; values and indexes give all that was stored.',
  ['inputs'], 'every dimension and pattern of stored indexes',
  'The tests iterate one vector.',
  [PC + 'points/mod.rs'], 'PointRef impls, SparseDenseIter::next, SparseRef @ pointcloud/src/points/mod.rs',
  'cell evaluation of the iterator step over (coordinate, entries left, next index), dataflow of the stored parts on MIR', STAT)

p('D10', 'A sparse cloud returns exactly the rows it was given',
  'SparseDataRam over values, column indexes and row starts r holds the points 0..len, len being one less than the number of row starts: point(i) is the cloud\'s dimension with exactly the values and column indexes r[i] .. r[i+1], also for empty rows; len, dim and is_empty agree with it; reference_indexes and names run over 0..len in order; name(i) spells i and index parses it back. '
  'new keeps values, column indexes, row starts and dimension. label and metadata are absent and the summaries count every index asked for as unlabeled, none as an error.',
  ['inputs'], 'every pattern of row starts, dimension and index of a point held',
  'No test reads a sparse cloud.',
  [PC + 'data_sources/sparse_ram.rs'], 'the PointCloud impl of SparseDataRam and SparseDataRam::new @ pointcloud/src/data_sources/sparse_ram.rs',
  'slice-region and size evaluation over cells of (row starts, index), dataflow of the stored parts on MIR', STAT)

SRV = 'serve_goko/src/'
ASYNC = ('Decided on all paths of the MIR of the async bodies with in-crate callees inlined; trusts rustc\'s MIR and the contracts of tokio\'s channels, futures and locks, hyper, regex and serde. '
         'Scheduling fairness of the executor is outside.')
p('S01', 'Every request is answered once, with its own answer',
  'Each HTTP or tracker request sent to a worker is answered exactly once, on the reply channel that came with it, whichever way processing goes: with what processing it gives, with the failure of processing or parsing, '
  'or, for a malformed query, with a 404 response that says what is wrong. The worker keeps serving after a failed request and stops only when no more requests can come. '
  'The caller\'s future is pending until the answer is there, resolves to that answer, and resolves to a failure when the worker is gone or dropped the request.',
  ['histories', 'inputs', 'schedules'], 'every sequence of requests, good or bad, from any number of clients',
  'There are no tests of the workers with failing, malformed or concurrent requests.',
  [SRV + 'http/service.rs', SRV + 'http/message.rs', SRV + 'core/internal_service.rs'], 'worker loop, HttpMessage/InternalMessage, GokoHttp::message, ResponseFuture @ serve_goko/src/http; TrackerWorker::operator, InternalServiceOperator @ serve_goko/src/core/internal_service.rs',
  'typestate of the reply channel over every path of the worker loop, cell evaluation of what is sent and of the future\'s poll', ASYNC)
p('S02', 'No request can panic or exhaust the server',
  'Whatever a client sends (path, query string, headers, body bytes, k, window size, tracker name), handling it does not panic in the server\'s code and sets no memory aside in proportion to a number given in the request; '
  'what cannot be used is answered with a failure or a not-found response. (A point whose length is not the tree\'s dimension does panic: recorded as a known finding per route.)',
  ['inputs'], 'every request',
  'A panic needs a particular malformed request (a k beyond usize, a header that is not text); it kills the worker and every later request fails.',
  [SRV + 'http/service.rs', SRV + 'parsers/msgpack_dense.rs', SRV + 'api/knn.rs', 'goko/src/query_interface/knn.rs'], 'panicking calls reachable from the request path and where their operands come from @ serve_goko/src; allocation sizes @ goko/src/query_interface',
  'taint analysis from the request to unwrap/expect/index/allocation sites over the call graph on MIR', ASYNC)
p('S03', 'Each route reaches the operation it names with the parameters given',
  'GET / asks for the parameters, GET /knn and /routing_knn for the k of the query string (10 when there is none; a k that is no usize is refused as malformed) around the point of the body, GET /path for the path of the point, '
  'POST /track/add adds a window of window_size, POST /track/point tracks the point, GET /track/stats reads the window of window_size, the last three for the tracker named by tracker_name or for the main tracker when there is none; '
  'add and stats without a usable window_size are refused as malformed, and any other path or method is not found. A body that does not parse is refused on the routes that take a point. Each kind of request gets the answer of its own kind, '
  'written as json with status 200, not-found answers as their text with their status.',
  ['inputs'], 'every method, path, query string and body',
  'The tests send one request to one route.',
  [SRV + 'http/service.rs', SRV + 'api/mod.rs'], 'parse_http, parse_knn_query, parse_tracker_query, into_http @ serve_goko/src/http/service.rs; CoreReader::process @ serve_goko/src/api/mod.rs',
  'exhaustive cells over (method, path, query parameters present/absent/unparsable, body) with the constructed request read off the MIR; regex constants inspected', ASYNC)
p('S04', 'The in-flight count is the number of requests not yet answered',
  'Both service front ends count a request when it is sent and uncount it exactly once, when its future becomes ready for whatever reason (answered, worker gone, request dropped) and not while it is pending; '
  'the count starts at zero, the future changes the counter of the service that made it, and the load reported is that count.',
  ['histories', 'schedules'], 'every sequence of requests whose futures are polled to the end, in every order of completion',
  'The count only matters for load balancing under concurrency, which no test observes.',
  [SRV + 'http/message.rs', SRV + 'http/service.rs', SRV + 'core/internal_service.rs'], 'in_flight counters @ serve_goko/src/http, serve_goko/src/core/internal_service.rs',
  'counting of increments and decrements on every path of issuing and polling, who-may-touch of the counter fields', ASYNC)
p('S05', 'The point parsed is the whole body of that request',
  'The bytes parsed for a request are all chunks of its own body, each once and in order, up to the end of the stream, with nothing left over from an earlier request; parsing waits while chunks are pending and a failing body is a failure. '
  'The body is MessagePack read as it is without a content-type, through the Deflate decoder for content type "zlib", through the Zlib decoder for "gzip", and refused for any other or unreadable content type; '
  'the point is the decoded list of numbers; bodies that do not unpack, are not a list of numbers or are empty are refused.',
  ['inputs', 'histories'], 'every division of a body into chunks, every sequence of requests on one connection, every header',
  'The tests send one small body in one chunk.',
  [SRV + 'parsers/mod.rs', SRV + 'parsers/msgpack_dense.rs', SRV + 'http/message.rs'], 'PointBuffer, PointParser::point, poll_point @ serve_goko/src/parsers/mod.rs; MsgPackDense::parse @ serve_goko/src/parsers/msgpack_dense.rs',
  'flag-sensitive typestate of the body reader, buffer typestate across requests, cell evaluation of the parser over content types and failures', ASYNC)
p('S06', 'Trackers see every tracked point in every window and only their own',
  'A tracked point or path is added once to every window of the tracker it names and to no other, as the path of that point in the served tree; tracking a point is answered with success exactly when there is a window. '
  'Adding a window adds one of that size over the served tree, unless there is one of that size: then nothing changes and the answer is false. Stats are those of the window asked and change nothing; an unknown window or tracker is reported by its name and size. '
  'A named tracker is made by the first add for its name, later adds reach the same one, and no other request makes or replaces one; all clients share the same trackers and the tree served, and no lock is taken while the same lock is held.',
  ['histories', 'inputs'], 'every sequence of add, track and stats requests by any number of clients',
  'The tests do not run the trackers behind the server.',
  [SRV + 'api/mod.rs', SRV + 'api/tracker.rs', SRV + 'core/mod.rs', SRV + 'core/internal_service.rs'], 'TrackerWorker::process @ serve_goko/src/api/tracker.rs; CoreReader::process @ serve_goko/src/api/mod.rs; CoreWriter::reader @ serve_goko/src/core/mod.rs',
  'cell evaluation of the worker over (request, window known, windows empty), cells of the tracker choice, guard-liveness lint for nested locks', ASYNC)
p('S07', 'Answers hold the results of the query, unchanged and in order',
  'The answer to a knn, routing knn or path request is the result of that query on the served tree for the request\'s point (and k): one entry per result in the query\'s order, with the name of that result\'s point, its own distance and, for paths, its layer and the label summary of its own node. '
  'A failure of the query or of finding a name is reported as a failure. The parameters answered are those of the served tree, each under its own name.',
  ['inputs'], 'every request and every tree',
  'The tests compare no answers with the tree.',
  [SRV + 'api/knn.rs', SRV + 'api/path.rs', SRV + 'api/parameters.rs'], 'process of each request @ serve_goko/src/api',
  'symbolic dataflow of each answer field from the query\'s result, failure cells', ASYNC)

p('D08', 'Loaders read every record of every file they are pointed at, in order',
  'Reading labels from a csv gives one label and one mask bit per record, in record order: the number in the field at the given index, masked out exactly when it is negative or the record has no such field; a field that is no integer and a record that cannot be read are failures, never skipped; '
  'the mask is kept exactly when a bit of it is off, and a name ending in gz is unpacked. Memory mapped data and labels open every file given, in the order given, each with its own dimension; different numbers of data and label files are refused. '
  'Glued memory maps turned into ram hold the points of the sources one after the other. A yaml description reads data_path and data_dim, and labels_path with labels_dim or labels_index: a csv or gz file with an index is a csv column, a dat file with dimension above one is one-hot, with dimension one binary, everything else is refused; '
  'a relative pattern is looked up beside the yaml file, an absolute one as it is, and every file matching is used in the order matched. A memory map covers the whole file, holds a quarter as many numbers as the file has bytes, keeps its dimension and path, and is unmapped whole.',
  ['inputs'], 'every file content, number of files, dimension, index and pattern',
  'The tests read one small well-formed file of each kind.',
  [PC + 'loaders/yaml_loaders.rs', PC + 'loaders/csv_loaders.rs', PC + 'loaders/mod.rs', PC + 'data_sources/memmap_ram.rs', PC + 'data_sources/memmapf32/mod.rs', PC + 'data_sources/memmapf32/unix.rs'],
  'read_csv, open_int_csv @ pointcloud/src/loaders/csv_loaders.rs; open_memmaps, open_labeled_memmaps, convert_glued_memmap_to_ram @ pointcloud/src/loaders/mod.rs; ram_from_yaml, labels_from_yaml, get_file_list @ pointcloud/src/loaders/yaml_loaders.rs; Mmapf32::map @ pointcloud/src/data_sources/memmapf32/mod.rs',
  'per-record event counting, cell evaluation over (field present, sign, parse result), dataflow of file lists and dimensions on MIR', STAT)
p('D09', 'Labelled and named clouds answer each question from the right part',
  'A cloud made of data and labels, or of a cloud and names, gives for every question the answer its data, label or name part gives to the same question with the same arguments, unchanged, including the failures; '
  'putting names on a cloud of a different length is refused.',
  ['inputs'], 'every question, point index, list of indexes and name',
  'The wrappers forward some twenty questions; the tests ask a few of them.',
  [PC + 'base_traits.rs'], 'SimpleLabeledCloud, SimpleNamedCloud @ pointcloud/src/base_traits.rs',
  'argument-for-argument comparison of every forwarded call on MIR', STAT)
p('B01', 'Bulk queries give one answer per point, in order',
  'A bulk query over a list of indexes or points or over the rows of an array answers with one result per point, in the order of the points, however many there are (none gives an empty list and no panic): '
  'result i is what the single query (known path, path, knn, routing knn, or the function given) gives for point i with the same tree reader and the same k.',
  ['inputs'], 'every number of points, including none and numbers that are no multiple of the chunk size',
  'The work is cut into chunks run in parallel and glued back; the tests use one chunk.',
  ['goko/src/query_interface/mod.rs'], 'index_map_with_reader, point_map_with_reader, array_map_with_reader and the queries over them @ goko/src/query_interface/mod.rs',
  'symbolic evaluation of the chunk/zip/map/reduce pipeline term for list lengths around the chunk size, on terms read off the MIR', STAT)

na('N01', 'Distances are metrics in floating point',
   'For all points the distance computed is non-negative, symmetric, zero only for equal points and satisfies the triangle inequality up to rounding, with and without SIMD and whatever the dimension.',
   ['inputs'], 'every pair and triple of finite points', 'A test samples a few points.',
   [PC + 'metrics/mod.rs'], 'Metric implementations @ pointcloud/src/metrics',
   'The claim bounds accumulated floating point error over data-dependent lengths; no static argument in reach bounds it (the formula itself, up to reordering of exact sums, is decided by D06).')
na('N02', 'Baselines and divergences have their statistical meaning',
   'Baseline statistics are the means and deviations of the divergences of sequences drawn from the tree, and divergences are non-negative and zero for equal distributions.',
   ['inputs', 'seeds'], 'every tree, prior weight, sample size and random seed', 'The values are random and numerical.',
   [PL + 'discrete/baseline.rs', PL + 'discrete/dirichlet.rs', PL + 'discrete/categorical.rs'], 'baseline and divergence computations @ goko/src/plugins',
   'The values are limits of random sampling and of special functions (ln gamma, digamma): a runtime, numerical quantity. What is decided statically is which evidence they are computed from (P03, P04).')
na('N03', 'Builds and queries take the time a cover tree promises',
   'Building takes O(n log n) and a query O(log n) distance computations for data of bounded doubling dimension, and readers never wait.',
   ['inputs', 'schedules'], 'every data set and schedule', 'Asymptotics cannot be sampled.',
   [TREEF, BLD], 'build and query loops @ goko/src/covertree',
   'The number of iterations depends on the geometry of the data (expansion constant); termination conditions and pruning bounds are decided in T04, T07 and T10, the complexity is not.')
na('N04', 'The published numbers are unaffected by the build machine',
   'The same data and seed give the same tree and the same floating point distances on every CPU, with every set of vector instructions.',
   ['environments'], 'every target CPU and thread count', 'Tests run on one machine.',
   [PC + 'metrics/mod.rs'], 'packed_simd distance kernels @ pointcloud/src/metrics',
   'Rounding of vectorised sums depends on lane width and instruction selection below the level of the source analysed; independence of scheduling and entropy is decided by T09.')

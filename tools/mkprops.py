import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
LB="rstsr-common/src/layout/layoutbase.rs"; IX="rstsr-common/src/layout/indexer.rs"; BC="rstsr-common/src/layout/broadcast.rs"
SH="rstsr-common/src/layout/shape.rs"; IT="rstsr-common/src/layout/iterator.rs"; RE="rstsr-common/src/layout/rearrangement.rs"
RS="rstsr-common/src/layout/reshape.rs"; MM="rstsr-common/src/layout/matmul.rs"; AX="rstsr-common/src/axis_index.rs"
NS="rstsr-native-impl/src/cpu_serial/"; NR="rstsr-native-impl/src/cpu_rayon/"; CT="rstsr-core/src/tensor/"
p("C01","Accepted layouts never reach outside their storage",
 "Whenever a shape, strides and starting offset are accepted for a buffer, every in-range multi-index of the resulting tensor addresses an element inside that buffer, and the reported address bounds are exactly the smallest and one past the largest address reached. A combination whose smallest address would be negative or whose largest would lie past the end of the buffer is rejected with an error. Reading an element by multi-index (negative entries counting from the end) yields the element at offset plus the sum of index times stride, and an index out of range on any axis is rejected.",
 ["inputs"],"every number of axes, every shape (including zero-length and length-one axes), every stride sign and magnitude, every offset and buffer length",
 "Tests sample a few well-formed layouts with small positive strides; the guarantee is over all strides, signs, offsets and ranks, where one missed case is an out-of-bounds access.",
 [LB,"rstsr-core/src/tensorbase.rs",CT+"indexing.rs"],
 [("address bounds of a layout",LB+": Layout::bounds_index"),("element address of a multi-index",LB+": Layout::index_f, index_uncheck"),("acceptance of storage + layout",  "rstsr-core/src/tensorbase.rs: TensorBase::new_f")],
 [("layout","shape, stride and offset that map a multi-index to a storage position",LB+": struct Layout")],["tensor construction from storage and layout","element read by multi-index"])
p("C02","Accepted non-broadcast layouts never make two elements share storage",
 "A layout accepted for tensor construction whose strides are non-zero on every axis longer than one maps distinct in-range multi-indices to distinct storage positions. A layout in which two distinct multi-indices coincide on such axes is rejected with an error.",
 ["inputs"],"every shape, every assignment of strides (any sign, any magnitude, any axis order), every offset",
 "Overlap depends on the joint arithmetic of all shapes and strides; the tests try a handful of layouts and cannot rule out an accepted overlapping one.",
 [LB],[("overlap check on strides",LB+": Layout::check_strides"),("checked constructor",LB+": Layout::new")],None,["Layout construction","tensor construction"])
p("C03","Contiguity, size and canonical strides are reported exactly",
 "A layout reports itself row-major (column-major) contiguous exactly when walking its elements in row-major (column-major) order visits consecutive storage positions, axes of length one and empty tensors placing no constraint; the reported counts of trailing or leading contiguous axes are the largest for which this holds. The canonical strides generated for a shape are those of that contiguous order, and the reported size is the product of the shape.",
 ["inputs"],"every shape and stride combination of every rank, including length-one and zero-length axes and negative strides",
 "Fast paths throughout the library trust these predicates; tests look at a few shapes, while a single misreported layout silently reads or writes the wrong elements.",
 [LB,SH],[("contiguity predicates",LB+": c_contig, f_contig, ndim_of_c_contig, ndim_of_f_contig"),("canonical strides",SH+": stride_c, stride_f, shape_size")],None,["layout predicates","newly created layouts"])
p("C04","Basic indexing addresses exactly the selected elements",
 "Slicing with ranges (any start, stop, non-zero step, negative values counted from the end, out-of-range bounds clipped), integers, inserted new axes and one ellipsis yields a view whose shape is the selected shape and whose element at every multi-index is the source element that selection designates, range arithmetic following the usual start/stop/step rules. A zero step, an integer out of range, too many indices or more than one ellipsis is rejected with an error.",
 ["inputs"],"every layout, every axis, every start/stop/step in the machine range, every mix of index kinds",
 "Slice normalisation has many interacting sign and clipping cases per axis; tests cover tens of them, not all starts, stops, steps and lengths.",
 [IX,CT+"indexing.rs","rstsr-common/src/layout/slice.rs"],
 [("narrowing an axis by start/stop/step",IX+": dim_narrow"),("integer selection",IX+": dim_select"),("new axis",IX+": dim_insert"),("mixed indexing",IX+": dim_slice")],None,["sliced views, immutable and mutable"])
p("C05","Axis manipulations are pure relabelings of the same elements",
 "Transposing, permuting, swapping, reversing or moving axes, flipping axes, inserting or removing length-one axes, and taking a diagonal with any offset yield a view whose shape follows from the operation and whose element at every multi-index is the source element at the correspondingly relabelled multi-index. Invalid axes (out of range, repeated, or not a permutation) and removal of an axis whose length is not one are rejected with an error.",
 ["inputs"],"every layout of every rank, every permutation, every axis argument including negative ones, every diagonal offset",
 "The relabelling must hold for all ranks, permutations and offsets; tests check a few permutations of small fixed arrays.",
 [LB,IX,CT+"manipulation/transpose.rs",CT+"manipulation/moveaxis.rs",CT+"manipulation/flip.rs",CT+"manipulation/expand_dims.rs",CT+"manipulation/squeeze.rs"],
 [("permutation of axes",LB+": transpose, reverse_axes, swapaxes"),("diagonal",LB+": diagonal"),("flip/expand/squeeze",CT+"manipulation/*.rs"),("removing a length-one axis",IX+": dim_eliminate")],None,["manipulated views"])
p("C06","Broadcasting follows the rank-alignment rule and repeats elements",
 "Two shapes broadcast exactly when, after aligning them at the last axis (row-major mode) or first axis (column-major mode), every pair of lengths is equal or one of them is one; the result takes the larger rank and, per axis, the non-one length, and any other pair is rejected with an error. A broadcast view has the common shape and its element at every multi-index is the source element at that multi-index with repeated axes set to zero and added axes dropped.",
 ["inputs","configurations"],"every pair of shapes and strides of any ranks, both default orders, including length-one and zero-length axes",
 "The rule is a universally quantified statement on pairs of shapes of arbitrary ranks in two modes; tests enumerate a few pairs.",
 [BC,CT+"manipulation/broadcast.rs"],
 [("common shape",BC+": broadcast_shape"),("per-axis stride update",BC+": update_layout_by_shape, broadcast_layout"),("one-sided broadcast",BC+": broadcast_layout_to_first")],None,["broadcast views","binary operators"])
p("C07","Reshaping preserves the logical element sequence",
 "A reshape to a shape of equal size yields a tensor whose elements, read in the governing order (row-major or column-major), are the source elements read in the same order, whatever the source strides; when it is returned as a view it shares the source storage. One entry of -1 is replaced by the quotient of sizes; a size mismatch, a second -1, a negative length or a non-dividing -1 is rejected with an error.",
 ["inputs","configurations"],"every source layout (strided, transposed, broadcast, negative strides, zero-size), every target shape, both orders",
 "Whether a strided tensor can be viewed under a new shape depends on factorisations across all axes; tests cover some factorisations of small shapes only.",
 [RS,LB,CT+"manipulation/reshape.rs",CT+"manipulation/into_compatible_shape.rs"],
 [("-1 substitution",RS+": reshape_substitute_negatives"),("view-reshape decision and strides",RS+": layout_reshapeable, attempt_nocopy_reshape, quick_check"),("copying reshape",CT+"manipulation/reshape.rs: change_shape_f")],None,["reshape, to_shape, into_shape"])
p("C08","Iterators visit every element exactly once, in order, from both ends",
 "Iterating a tensor's elements or sub-views in row-major or column-major order yields each multi-index of the iterated axes exactly once in that order, each paired with the correct storage position (and, for indexed iteration, the correct multi-index), and the reported remaining length is exact. Taking items from the front and the back in any interleaving, or splitting at any position, partitions the same sequence without loss, repetition or reordering.",
 ["inputs","histories"],"every layout of every rank incl. zero-size and rank zero, every order, every interleaving of front/back steps and splits",
 "The guarantee ranges over histories of next/next_back/split calls on arbitrary shapes; tests walk a few iterators front to back.",
 [IT,CT+"iterator_elem.rs",CT+"iterator_axes.rs","rstsr-common/src/par_iter.rs"],
 [("column-major/row-major odometer iterators",IT+": IterLayoutColMajor, IterLayoutRowMajor next/next_back/split_at"),("index from linear position",SH+": unravel_index_c, unravel_index_f"),("indexed iteration",IT+": IndexedIterLayout"),("sub-view iteration",CT+"iterator_axes.rs")],
 [("iterator position","start/end multi-index, storage offset and linear position at both ends",IT+": struct IterLayoutColMajor/RowMajor")],["element and axis iterators, serial and parallel"])
p("C09","Element-wise operations act index by index, on nothing else",
 "Unary, binary, in-place and mapped element-wise operations, assignment and filling give, at every multi-index, the operation applied to the (broadcast) operand elements at that multi-index, whatever the strides, offsets, memory order or size of the operands. Storage positions not addressed by the destination are left unchanged, operands are left unchanged, and assigning, filling or combining another tensor into a destination with broadcast axes is rejected with an error.",
 ["inputs","configurations"],"every operand layout combination (contiguous or not, transposed, negative strides, broadcast, zero-size), every size incl. those beyond fast-path thresholds, serial and multi-threaded devices",
 "Each kernel picks among contiguous, partially contiguous and general paths from operand strides and size; the tests exercise few layout combinations and no frame condition.",
 [NS+"assignment.rs",NS+"op_with_func.rs",NR+"assignment.rs",NR+"op_with_func.rs",RE,IT,CT+"operators/op_binary_arithmetic.rs",CT+"map_elementwise.rs",CT+"assignment.rs"],
 [("kernels",NS+"assignment.rs, op_with_func.rs"),("joint traversal order of operands",IT+": translate_to_col_major"),("order of axes for traversal",RE+": greedy_layout")],None,["operators, map functions, assign, fill"])
p("C10","Reductions combine every selected element exactly once",
 "Reducing over all axes or any set of axes (sum, product, min, max, any, all, counting, mean and, by position, argmin/argmax) yields at every multi-index of the kept axes the combination of exactly the elements along the reduced axes, each once, whatever the input strides, broadcasting, memory order or size; positional reductions give the first position attaining the extremum, counted over the reduced axes. The result has the kept shape, negative axes count from the end, and repeated or out-of-range axes, and extrema of no elements, are rejected with an error.",
 ["inputs","configurations"],"every input layout and axis set, all sizes across blocking and threading thresholds, serial and multi-threaded devices",
 "Blocked, contiguous and general paths are chosen by stride patterns and size; tests cover some axis sets on contiguous arrays.",
 [NS+"reduction.rs",NR+"reduction.rs","rstsr-core/src/device_cpu_serial/reduction.rs",CT+"reduction.rs",IX],
 [("blocked contiguous reduction",NS+"reduction.rs: unrolled_reduce, reduce_all_cpu_serial"),("reduction by axes",NS+"reduction.rs: reduce_axes_cpu_serial"),("positional reductions",NS+"reduction.rs: reduce_all_arg, reduce_axes_arg"),("splitting kept and reduced axes",IX+": dim_split_axes")],None,["sum/prod/min/max/any/all/argmin/argmax (axes and all)"])
p("C11","Matrix multiplication is the sum of products for every operand layout",
 "Multiplying vectors, matrices and stacks of matrices yields the shape given by the promotion and batch-broadcasting rules, and each result element is the sum over the contracted axis of products of the corresponding operand elements (scaled and accumulated as requested), for every operand and destination layout. Operands whose contracted or batch lengths do not agree are rejected with an error, and positions outside the destination are unchanged.",
 ["inputs","configurations"],"all ranks and shapes of both operands, both default orders, every layout of operands, all devices",
 "The rules branch on ranks, default order, contiguity flags and aliasing of operands; tests sample a few combinations with contiguous data.",
 [MM,NS+"matmul_naive.rs",NR+"matmul_naive.rs","rstsr-core/src/device_cpu_serial/linalg/matmul.rs",CT+"linalg/matmul.rs","rstsr-core/src/device_faer/matmul.rs"],
 [("shape and batch rules",MM+": layout_matmul_dyn_row_major, layout_matmul_dyn_col_major"),("kernels",NS+"matmul_naive.rs: gemm/gemv/inner_dot")],None,["matmul, matmul_from, % operator, vecdot"])
p("C12","Joining, splitting and gathering place every element correctly",
 "Concatenating, stacking (any axis, horizontally, vertically), unstacking, gathering along an axis by an index list, building coordinate grids and building or extracting a diagonal matrix produce the defined result shape with every element equal to the source element designated by the operation, for every source layout. Joining inputs of incompatible shapes or ranks or an empty list of inputs, out-of-range indices, and masks of the wrong length are rejected with an error.",
 ["inputs"],"every list of source layouts, every axis (including negative), every index list incl. empty, repeated and negative entries",
 "The result is defined for arbitrary counts, ranks, layouts and index lists; tests cover a few lists of contiguous arrays.",
 [CT+"creation_from_tensor.rs",CT+"adv_indexing.rs",NS+"adv_indexing.rs",NR+"adv_indexing.rs"],
 [("gather kernel",NS+"adv_indexing.rs: index_select_cpu_serial"),("concat/stack/unstack/meshgrid/diag",CT+"creation_from_tensor.rs")],None,["concat, stack, hstack, vstack, unstack, index_select, take, meshgrid, diag"])
p("C13","Creation routines produce exactly the defined values",
 "Integer ranges contain start plus multiples of step, in order, up to but excluding the end for either sign of step; constant, identity, lower- and upper-triangular constructions hold the defined value at every multi-index with the requested diagonal offset, and shape and size are as requested, in both default orders. Requests whose shape needs more elements than the supplied data holds are rejected with an error.",
 ["inputs","configurations"],"all integer start/end/step, all shapes and diagonal offsets, both orders",
 "The values are defined for every start/end/step and shape; tests print a few instances.",
 [NS+"creation.rs",CT+"creation.rs",CT+"asarray.rs","rstsr-core/src/device_cpu_serial/creation.rs"],
 [("integer ranges",NS+"creation.rs: arange_*"),("identity/triangles",CT+"creation.rs: eye, tril, triu"),("construction from data",CT+"asarray.rs")],None,["arange, full, zeros, ones, eye, tril, triu, asarray"])
p("C14","Copies and layout conversions preserve every element",
 "Copying a tensor into a contiguous order, a prescribed layout, an owned, shared or copy-on-write container, or between row-major and column-major storage yields a tensor of the same shape with the same element at every multi-index, in the requested memory order, and leaves the source unchanged. Writing to a copy never changes the source, and writing through a mutable view changes exactly the viewed elements of its source.",
 ["inputs","histories"],"every source layout, every requested order or target layout, every container kind",
 "Copy kernels choose among memcpy, blocked transposition and general paths by stride and size; tests cover few of the stride patterns and none of the aliasing histories.",
 [NS+"transpose.rs",NR+"transpose.rs",NS+"assignment.rs",CT+"manipulation/to_contig.rs",CT+"manipulation/to_layout.rs",CT+"ownership_conversion.rs",RE,"rstsr-core/src/storage/data.rs"],
 [("blocked transpose",NS+"transpose.rs: orderchange_out_r2c"),("destination layout for a copy",IT+": layout_for_array_copy"),("order conversion",CT+"manipulation/to_contig.rs, to_layout.rs")],None,["to_contig, to_prefer, to_layout, into_owned, to_owned, asarray, ownership conversions"])
p("C15","Axis arguments are normalised uniformly or rejected",
 "An axis argument between minus the rank and the rank minus one denotes one axis, negative values counting from the end; any other value is rejected with an error wherever an axis or list of axes is accepted. Lists of axes keep their order (or are sorted where documented), and repeated axes are rejected wherever repetition is not allowed.",
 ["inputs"],"every rank and every integer or list of integers as axis argument",
 "The guarantee is over all integers and list lengths at every operation taking an axis; tests try a few axes.",
 [AX,"rstsr-common/src/error.rs",IX,LB],
 [("normalisation of axis lists",AX+": normalize_axes_index"),("single-axis checks","rstsr-common/src/error.rs: rstsr_check_axis!, rstsr_check_axis_insert!")],None,["all operations taking axes"])
p("C16","Triangular packing and unpacking are mutually inverse index maps",
 "Packing the lower or upper triangle of (stacks of) square matrices writes each triangle element exactly once in row order, and unpacking writes every matrix element from its packed counterpart with the sign, conjugation or zero prescribed by the requested symmetry, for every layout. Unpacking after packing reproduces the triangle, and nothing outside the destination is written.",
 ["inputs"],"every matrix order, batch shape, layout of both sides, both triangles, all symmetry kinds, serial and multi-threaded devices",
 "The index arithmetic must hold for every order n and layout; tests check single sizes against fixed fingerprints.",
 [NS+"op_tri.rs",NR+"op_tri.rs",CT+"operators/op_tri.rs"],
 [("packing loops",NS+"op_tri.rs: inner_pack_*"),("unpacking loops",NS+"op_tri.rs: inner_unpack_*")],None,["pack_tri, unpack_tri"])
p("C17","Grouping elements into fixed-size arrays is lossless and invertible",
 "Reinterpreting a tensor's contiguous axis of length N as elements that are arrays of N entries (and back) keeps every entry reachable at the corresponding multi-index, and the two operations are inverse. A request whose axis is not contiguous, whose length is not N, or whose offset, strides or storage length are not multiples of N is rejected with an error.",
 ["inputs"],"every layout, axis and N",
 "Divisibility of every stride, the offset and the length matters; tests use plain contiguous arrays only.",
 ["rstsr-common/src/pack_array.rs",CT+"pack_array.rs"],
 [("slice/vector reinterpretation","rstsr-common/src/pack_array.rs"),("layout conversion",CT+"pack_array.rs: into_pack_array_f, into_unpack_array_f")],None,["into_pack_array, into_unpack_array"])
p("C18","Axis-contraction specifications translate to the equivalent index string",
 "A tensor-contraction request (a count of axes or a pair of axis lists over two ranks) is translated to subscripts in which exactly the paired axes share a label, all other labels are distinct, and the output lists the free axes of the first then the second operand in order. Axis lists of different lengths, repeated axes, or axes out of range are rejected with an error.",
 ["inputs"],"every pair of ranks within the label supply and every pair of axis lists",
 "Tests check a few strings; the mapping must be right for every pairing and order of axes.",
 ["rstsr-common/src/tensordot_to_einsum.rs","rstsr-common/src/axes_pair_index.rs"],
 [("translation","rstsr-common/src/tensordot_to_einsum.rs: tensordot_to_einsum_str")],None,["tensordot specification translation"])
p("C19","Multi-threaded execution gives the single-threaded result under any schedule",
 "For every operation, the multi-threaded devices produce the result of the serial device under every thread count and every schedule of the worker threads, without data races between workers.",
 ["schedules","configurations"],"every thread count, work-stealing schedule and operation",
 "A test run observes one schedule; races and partition errors need not manifest in it.",
 [NR+"assignment.rs",NR+"op_with_func.rs",NR+"reduction.rs",IT],[("parallel kernels",NR+"*.rs")],None,["DeviceCpuRayon / DeviceFaer results"])
p("C20","Linear-algebra decompositions satisfy their defining equations",
 "Solvers and decompositions return factors whose recombination equals the input within the numerical error bound of the algorithm, for every input matrix and layout, on every backend.",
 ["inputs","configurations"],"all real and complex matrices, all layouts, all BLAS/LAPACK backends",
 "Floating-point error bounds over all inputs cannot be sampled.",
 ["rstsr-linalg-traits/src","rstsr-blas-traits/src","crates-device"],[("LAPACK drivers","rstsr-blas-traits/src")],None,["linalg functions"])
p("C21","Distance metrics and floating-point statistics equal their definitions",
 "Pairwise distances, means, variances, norms, linear spacings and closeness tests equal their mathematical definitions within rounding error for all floating-point inputs.",
 ["inputs"],"all floating-point inputs",
 "Rounding behaviour over all inputs cannot be sampled.",
 ["rstsr-sci-traits/src/distance","rstsr-dtype-traits/src/isclose.rs","rstsr-core/src/device_cpu_serial/reduction.rs"],[("metrics","rstsr-sci-traits/src/distance/metric.rs")],None,["cdist, var, std, linspace, isclose"])
p("C22","Raw memory management is sound",
 "Uninitialised and aligned storage is allocated, initialised completely before it is read, reinterpreted and released consistently, with no leak, double release, or mismatch between allocation and release.",
 ["inputs","histories"],"all sizes, alignments and ownership histories",
 "Undefined behaviour need not be observable in a test run.",
 ["rstsr-common/src/alloc_vec.rs","rstsr-core/src/storage/data.rs"],[("aligned allocation","rstsr-common/src/alloc_vec.rs")],None,["storage creation and drop"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))

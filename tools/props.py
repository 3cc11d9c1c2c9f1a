import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append(dict(id=id,title=title,statement=st,quantifier={"over":over,"text":qt},why_tests_cant=why,anchors=a))

p("C01","Tensors, index lists and sparse matrices have independent value semantics",
"After any history of copies, assignments (self-assignment included), conversions between kinds of object, passing by value, element and slice writes, refills, in-place updates, reshapes and destruction, every object holds exactly the contents and shape its own history dictates: changing one object never changes another that was copied from it or that it was copied from. No history leaks memory, frees it twice or reads memory that was released.",
["histories"],"all interleavings of copy, assignment, conversion, mutation and destruction over several live objects that share storage",
"The tests exercise fixed two- or three-step copy scenarios; sharing bugs need particular histories (a mutation through one access path while another object shares the data).",
["include/tensor/refcount.h","include/tensor/detail/refcount.hpp","include/tensor/vector.h","include/tensor/tensor.h","include/tensor/detail/tensor_base.hpp","include/tensor/sparse.h"],
[("copy-on-write reference-counted storage","include/tensor/detail/refcount.hpp: RefPointer::appropriate/reference/dereference/operator="),("vector and tensor wrappers","include/tensor/vector.h, include/tensor/detail/tensor_base.hpp")],
state=[("reference count","number of objects sharing one block; a block shared by more than one object must be copied before it is written")])

p("C02","Element access follows column-major order and refuses bad indices",
"A tensor of rank 1 to 6 built with given dimensions reports exactly those dimensions and size, and its elements are laid out in column-major order: the element at (i1,...,ik) is the one at linear position i1 + d1*(i2 + d2*(i3 + ...)), and negative indices count from the end of their dimension. A write through any accessor changes that element and nothing else; an index outside its dimension, a number of indices (two or more) different from the rank, or data whose size does not match the dimensions is refused instead of touching other memory. Zero, one, identity and uniformly filled tensors have exactly the stated elements and shape.",
["inputs"],"all ranks 1-6, all dimension tuples (zero sizes included), all in-range, negative and out-of-range index tuples, real and complex elements",
"Tests sample a few shapes and do not check out-of-range accesses for every accessor and rank; each rank and element type has its own code path.",
["include/tensor/tensor.h","include/tensor/detail/tensor_base.hpp","include/tensor/detail/tensor_matrix.hpp","include/tensor/detail/common.h","src/tensor/tensor_common.cc","src/indices/indices.cc"],
[("index normalisation","src/tensor/tensor_common.cc, include/tensor/detail/common.h: normalize_index"),("accessors per rank","include/tensor/detail/tensor_base.hpp: operator(), at, get_dimensions"),("constant matrices","include/tensor/detail/tensor_matrix.hpp: eye, zeros, ones")])

p("C03","Reading a slice selects exactly the requested elements",
"Reading a slice of a tensor of rank 1 to 6 yields a tensor of the same rank whose size along every dimension is the number of indices selected there and whose elements are those at the selected positions, in order, for every combination of single indices, start:end and start:step:end ranges, explicit index lists (repeated or unsorted too) and full ranges. Negative indices count from the end of the dimension; a selection reaching outside the tensor, or a number of ranges (two or more) different from the rank, is refused; one range addresses the elements linearly. The source is not modified, and the result does not share later changes with it.",
["inputs"],"all ranks, dimensions and combinations of range kinds, including empty results and boundary or out-of-range selections",
"Existing tests use hand-picked ranges on low ranks; selections that end exactly at, or one past, a boundary, combinations of kinds at rank 4-6 and empty selections are not covered.",
["include/tensor/indices.h","src/views/range.cc","src/tensor/tensor_view.hpp","include/tensor/detail/tensor_slice.hpp","doc/sec_tensor.hdoc"],
[("range iterators","src/views/range.cc: FullRange, SingleRange, StepRange, IndexRange, ProductRange"),("view to tensor conversion","src/tensor/tensor_view.hpp")])

p("C04","Writing a slice changes exactly the selected elements",
"Assigning a tensor, another slice or a scalar to a slice stores the source elements, in order, at the selected positions and leaves every other element, the shape of the target and every other object unchanged, whatever the combination of ranges; this also holds when the source is the target itself or shares its data. Assigning a tensor or slice whose number of elements differs from the selection is refused, as is a selection reaching outside the target.",
["inputs","histories"],"all ranks, dimensions, range combinations and source kinds (tensor, slice, scalar), including sources that alias the target",
"Tests use fixed selections; aliasing between source and target and boundary selections depend on storage sharing that tests do not reach.",
["include/tensor/detail/tensor_slice.hpp","src/tensor/tensor_view.hpp","src/views/range.cc"],
[("mutable view assignment","src/tensor/tensor_view.hpp: mutable_view::operator="),("range iterators","src/views/range.cc")])

p("C05","Elementwise arithmetic equals scalar arithmetic at every position",
"Sum, difference, product and quotient of two tensors, or of a tensor and a scalar on either side, negation and the compound assignments have the operands' dimensions and, at every position, exactly the value of the corresponding scalar operation, for real, complex and mixed operands and for all floating point values including zeros of either sign, infinities, NaN and subnormals. The operands are left unchanged (compound assignment changes only its left operand, also when it shares data with the right one), and operands of different sizes are refused.",
["inputs"],"all shapes, all pairs of real/complex operands, tensor-tensor, tensor-scalar and scalar-tensor forms, all floating point values, aliasing operands",
"Tests use finite random values and same-type operands mostly; special values, mixed real/complex forms and shared operands are not covered.",
["include/tensor/detail/tensor_ops.hpp","src/tensor/tensor_t_op_t.cc","src/tensor/tensor_t_op_n.cc","src/generated/tensor_plus_tt_double.cc","src/generated/tensor_minus_tn_cdouble.cc"],
[("generated tensor-tensor and tensor-number kernels","src/generated/tensor_*_t[tn1]_*.cc"),("generic mixed-type templates and compound assignment","include/tensor/detail/tensor_ops.hpp")])

p("C06","Elementwise functions apply the scalar function at every position",
"Absolute value, square root, exponential, logarithm, the trigonometric and hyperbolic functions, rounding, conjugate, real part, imaginary part and conversion to complex return a tensor of the argument's dimensions whose every element is the scalar function of the element in the same position, for all finite and special floating point values, and leave the argument unchanged. A complex tensor is recovered from its real and imaginary parts (parts of different sizes are refused), and conjugation is an involution.",
["inputs"],"all shapes and all real or complex element values, special values included",
"Tests compare a few random tensors in the unit interval; each function and element type is a separate file and special values are not sampled.",
["src/tensor/tensor_unop.cc","src/generated/tensor_unop_abs_z.cc","src/tensor/tensor_conj.cc","src/tensor/tensor_real_z.cc","src/tensor/tensor_imag_d.cc","src/tensor/tensor_imag_z.cc","src/tensor/tensor_to_complex.cc","src/tensor/tensor_round_d.cc"],
[("generated unary kernels","src/generated/tensor_unop_*.cc"),("real/imag/conj/to_complex","src/tensor/tensor_{conj,real_z,imag_d,imag_z,to_complex}.cc")])

p("C07","Comparisons and boolean operations agree with scalar logic everywhere",
"Comparing tensors or index lists with each other or with a scalar on either side gives one boolean per element, equal to the scalar comparison of the elements in that order of operands, NaN and signed zeros included; equality tests over whole tensors or index lists are true exactly when shapes and all elements agree. Negation, conjunction and disjunction act elementwise, the all/any/none quantifiers agree with the elements, and the list of positions of true values is complete, increasing and duplicate-free. Operands of different lengths are refused by the elementwise forms.",
["inputs"],"all operator/operand-order combinations, shapes and values, ties and NaN included",
"Tests cover only some operators and no scalar-on-the-left ordering comparison, and rarely produce ties between operands.",
["include/tensor/tensor.h","include/tensor/indices.h","src/compare/rtensor_rtensor_l.cc","src/compare/ctensor_ctensor_all_equal.cc","src/compare/indices_index_ge.cc","src/indices/booleans.cc","src/indices/which.cc"],
[("comparison kernels","src/compare/*.cc"),("reversed scalar comparisons","include/tensor/tensor.h, include/tensor/indices.h inline operators"),("boolean operations","src/indices/booleans*.cc, src/indices/which.cc")])

p("C08","Sorting returns the ordered permutation of its input",
"Sorting a vector of reals or indices returns the same values in non-decreasing order, or non-increasing order when reversed, and the sorting permutation lists every position exactly once so that reading the input through it gives the sorted vector; the argument is unchanged. This holds for vectors of any length with ties, infinities, and integers of any magnitude.",
["inputs"],"all vectors, lengths and orders, ties and large integers included",
"Tests sort small random permutations without ties or large magnitudes.",
["src/tensor/tensor_sort_d.cc","src/tensor/tensor_sort_i.cc"],
[("sort and sort_indices","src/tensor/tensor_sort_d.cc, src/tensor/tensor_sort_i.cc")])

p("C09","Reshaping and reordering operations keep the data and only move it",
"Reshape and flatten keep the column-major sequence of elements under the new dimensions; squeeze removes exactly the dimensions of size one; permuting two indices, transposing and taking the adjoint put the element of every multi-index at the exchanged multi-index (conjugated for the adjoint), so applying them twice gives the input back; changing the size of a dimension keeps the elements common to both sizes and fills the rest with zeros. A reshape to a different total size is refused, and the argument is never modified.",
["inputs"],"all ranks 1-6, dimensions (ones and zeros included), pairs of indices with negative ones counting from the last, real and complex elements",
"Tests use few shapes and index pairs; unequal dimensions, non-adjacent indices and zero sizes combine in many ways.",
["src/tensor/tensor_reshape_d.cc","src/tensor/tensor_flatten_d.cc","src/tensor/tensor_squeeze.cc","src/tensor/tensor_permute.cc","src/tensor/matrix_transpose.cc","src/tensor/matrix_adjoint_z.cc","src/tensor/tensor_change_dimension.cc","include/tensor/detail/tensor_reshape.hpp","src/indices/surrounding_dimensions.cc"],
[("permute / transpose / adjoint","src/tensor/tensor_permute.cc, src/tensor/matrix_*.cc"),("reshape, squeeze, flatten, change_dimension","src/tensor/tensor_{reshape,squeeze,flatten,change_dimension}*")])

p("C10","Tensor contractions equal the explicit sum over the contracted index",
"Contracting one index of a tensor with one index of another gives, for every combination of the remaining indices, the sum over the common index of the products of elements, with the remaining indices of the first tensor followed by those of the second (or inserted in place of the contracted index for the in-place variety), conjugating the first tensor when so requested; matrix products are the special case of last with first index. This holds for all ranks, index choices (negative ones counting from the last), real, complex and mixed operands and for the variants that store into a given tensor, which replace its previous shape and content; operands are unchanged and mismatched sizes are refused.",
["inputs"],"all ranks and dimensions of both operands, all pairs of contracted indices, real/complex/mixed, conjugated or not, into fresh or existing (even aliased) outputs",
"There are separate kernels per position of the contracted index (first, middle, last) and type; tests sample few shapes and random index choices.",
["src/tensor/tensor_fold.cc","src/tensor/tensor_fold_d.cc","src/tensor/tensor_fold_dz.cc","src/tensor/tensor_fold_z.cc","src/tensor/tensor_foldin.cc","src/tensor/gemm.cc","include/tensor/tensor_blas.h"],
[("fold/foldc/mmult kernels","src/tensor/tensor_fold*.cc, src/tensor/gemm.cc"),("foldin","src/tensor/tensor_foldin*.cc")])

p("C11","Diagonals, traces, index scaling and index means follow their definitions",
"Building a (shifted, rectangular) diagonal matrix, extracting any diagonal over any two indices, tracing a matrix or two indices of a tensor (over their common positions), scaling along one index by a vector and averaging over one index give exactly the elements and dimensions of their mathematical definitions for every rank and choice of indices (negative ones counting from the last). Extracting the diagonal just built returns the vector, scaling in place gives the same result as scaling a copy and leaves objects that shared the data unchanged, and a scale vector or a diagonal of the wrong length is refused.",
["inputs"],"all ranks, dimensions, index choices and diagonal shifts, real and complex elements",
"Tests mostly use square matrices or the last index; other index choices with unequal surrounding dimensions are not covered.",
["src/tensor/tensor_take_diag.cc","src/tensor/matrix_diag.cc","src/tensor/matrix_trace.cc","src/tensor/tensor_trace.cc","src/tensor/tensor_scale.cc","src/tensor/tensor_mean_ndx.cc"],
[("take_diag / diag","src/tensor/tensor_take_diag.cc, src/tensor/matrix_diag.cc"),("trace","src/tensor/matrix_trace.cc, src/tensor/tensor_trace.cc"),("scale, mean over an index","src/tensor/tensor_scale.cc, src/tensor/tensor_mean_ndx.cc")])

p("C12","Kronecker products and sums obey their algebra for dense and sparse matrices",
"The Kronecker product in the usual (Matlab) order has element A(i,j)*B(k,l) at row k+i*rows(B), column l+j*columns(B), and the variant with opposite order exchanges the roles of both factors; the Kronecker sum of two square matrices, kron2(A,identity)+kron2(identity,B), is the sum of each acting on its own factor. Dense and sparse versions agree with each other, vectors and rectangular or empty factors are handled consistently, and the mixed product rule kron(A,B)*kron(C,D)=kron(A*C,B*D) holds.",
["inputs"],"all sizes of factors, all values, dense and sparse, real and complex",
"Tests use a few small fixed matrices; unequal sizes and sparse factors with a number of non-zeros different from the dimension are not covered.",
["src/tensor/tensor_kron.hpp","src/tensor/tensor_kron2_sum_d.cc","src/sparse/sparse_kron.hpp"],
[("dense kron","src/tensor/tensor_kron.hpp"),("sparse kron","src/sparse/sparse_kron.hpp")])

p("C13","Reductions and norms equal their definitions",
"Sum, mean, smallest and largest element, the largest-modulus norm, the Euclidean norm, the scalar product (the documented sum of A_i times the conjugate of B_i) and the matrix infinity norm (largest sum of moduli along a row) of any non-empty real or complex tensor equal their mathematical definitions over exactly all elements, up to rounding error, for any rank, sign pattern and magnitude (infinite elements included for the largest and smallest elements and the largest modulus; for the Euclidean norm and the scalar product, as long as the squares neither overflow nor underflow). They never modify their arguments, and the scalar product of tensors of different sizes is refused.",
["inputs"],"all shapes, lengths, element values (all-negative, tiny, large, mixed sign) and types",
"Tests use random positive values in [0,1]; sign patterns and extremes at the first or last position are not sampled.",
["src/tensor/tensor_sum_d.cc","src/tensor/tensor_mean_d.cc","src/tensor/tensor_max_d.cc","src/tensor/tensor_min_d.cc","src/tensor/tensor_norm0_d.cc","src/tensor/tensor_norm2_d.cc","src/tensor/matrix_norminf_d.cc","src/tensor/matrix_norminf_z.cc"],
[("reductions","src/tensor/tensor_{sum,mean,max,min}_*.cc"),("norms and scprod","src/tensor/tensor_norm{0,2}_*.cc, src/tensor/matrix_norminf_*.cc")])

p("C14","Index lists, integer ranges and linearly spaced grids are exact",
"Integer ranges contain exactly start, start+step, ... up to the inclusive end; concatenating index lists keeps all elements in order; total sizes are the product of the dimensions; list generators keep values and order; conversion of index lists to tensors is exact. A linear grid of n points starts exactly at the first value, ends at the second and is equally spaced up to rounding, for real, complex and tensor end points of any rank, where the grid adds one trailing dimension of size n.",
["inputs"],"all starts, ends, steps, lengths, list contents, grid sizes (1 included) and end point shapes",
"Tests use a few fixed lists and grids; end point tensors of rank above one, single-point grids and complex end points are not covered.",
["src/indices/indices.cc","src/indices/concat.cc","src/indices/linspace.hpp","src/indices/to_tensor.cc","include/tensor/gen.h"],
[("ranges, concatenation, total size","src/indices/indices.cc, src/indices/concat.cc"),("linspace","src/indices/linspace.hpp"),("generators","include/tensor/gen.h")])

p("C15","Sparse matrices are a faithful, well-formed encoding of dense matrices",
"Building a sparse matrix from a dense one, from coordinate lists in any order or from its compressed-row parts, reading any element, converting back to dense, conjugating, transposing, taking adjoints, real and imaginary parts and converting to complex all agree with the same operations on the dense matrix, for any shape and sparsity pattern including empty rows, empty matrices and all zeros. The internal compressed-row form is always consistent: row offsets start at zero, never decrease and end at the number of stored values, and columns strictly increase within each row; elements outside the matrix are refused.",
["inputs"],"all shapes, sparsity patterns, coordinate orders, explicit or deduced dimensions, real and complex",
"Tests use random matrices at one density and diagonals; coordinate lists with deduced dimensions, empty trailing rows and degenerate shapes are not covered.",
["include/tensor/sparse.h","include/tensor/detail/sparse_base.hpp","src/sparse/sparse_d.cc","src/sparse/full_d.cc","src/sparse/sparse_transpose_d.cc","src/sparse/sparse_adjoint_z.cc","src/sparse/sparse_real.cc","src/sparse/sparse_imag.cc","src/sparse/sparse_conj.cc"],
[("construction and element lookup","include/tensor/detail/sparse_base.hpp"),("transpose/adjoint/full","src/sparse/*.cc")],
state=[("compressed rows","row_start offsets, column numbers and values of the stored entries")])

p("C16","Sparse arithmetic and products agree with dense arithmetic",
"Sum, difference, elementwise product, negation and multiplication or division by a scalar of sparse matrices, and the products of a sparse matrix with a dense tensor on either side (tensors of any rank contract their adjacent index), give the same result as converting to dense first, for real, complex and mixed operands and any sparsity pattern. Results are well-formed sparse matrices, without stored zeros for sums, differences and elementwise products, operands are unchanged, and incompatible dimensions are refused.",
["inputs"],"all shapes, pairs of sparsity patterns (disjoint, nested, cancelling), types and tensor ranks",
"Tests use random patterns of one size, rarely cancelling entries, empty rows, rectangular shapes or products with the sparse factor on the right.",
["src/sparse/sparse_binop.hpp","include/tensor/detail/sparse_ops.hpp","src/sparse/mmult_sparse_tensor.h","src/sparse/mmult_tensor_sparse.h","src/generated/sparse_plus_tt_double.cc"],
[("merge of two compressed rows","src/sparse/sparse_binop.hpp"),("sparse-dense products","src/sparse/mmult_*.h"),("generated scalar kernels","src/generated/sparse_*.cc")])

p("C17","Linear solvers return solutions of the system they were given",
"For every well-conditioned square system, solving directly returns X with A*X=B within a backward-error bound proportional to machine precision, for one or many right-hand sides, for right-hand sides of any rank, real or complex, without modifying A or B. Solving through singular values returns the same for regular square systems and the minimum-norm least-squares solution otherwise, discarding the singular values that do not exceed the tolerance (the zero matrix included). Dimension mismatches and singular matrices are refused.",
["inputs"],"all sizes, right-hand side shapes, well-conditioned and rank-deficient or rectangular matrices, real and complex",
"Tests solve trivial (identity-like) or random square systems only.",
["src/linalg/solve_d.cc","src/linalg/solve_z.cc","src/linalg/solve_with_svd_d.cc","src/linalg/solve_with_svd_z.cc"],
[("LU solver","src/linalg/solve_{d,z}.cc"),("SVD solver","src/linalg/solve_with_svd_{d,z}.cc")])

p("C18","Singular value decompositions reconstruct the matrix",
"For every real or complex matrix, the decomposition returns non-negative singular values in non-increasing order and factors with orthonormal columns (rows) whose product with the diagonal of singular values is the input, to machine precision relative to its norm; the economic form has the truncated dimensions and the full form square unitary factors, and the singular values are the same whichever factors are requested. The block variant gives an equivalent decomposition for any pattern of zero and non-zero blocks. The input is unchanged.",
["inputs","configurations"],"all shapes (tall, wide, square, single row or column), ranks, zero patterns, economic or full, every combination of requested factors, real and complex",
"Tests decompose random full matrices and identity blocks; permuted block patterns, zero rows and rank deficiency are not covered.",
["src/linalg/svd_d.cc","src/linalg/svd_z.cc","src/linalg/block_svd.hpp","src/linalg/find_blocks.hpp"],
[("LAPACK drivers","src/linalg/svd_{d,z}.cc"),("block detection and assembly","src/linalg/block_svd.hpp, src/linalg/find_blocks.hpp")])

p("C19","Full eigenvalue decompositions satisfy the eigenvalue equations",
"For every square real or complex matrix, the general decomposition returns all eigenvalues such that the right vectors satisfy A*R=R*D and the left vectors L^H*A=D*L^H to machine precision relative to the matrix norm, every vector being non-zero and normalised; the eigenvalues do not depend on which vectors are requested. For symmetric or Hermitian matrices the symmetric decomposition returns real eigenvalues in non-decreasing order with orthonormal vectors that reconstruct the matrix. The input is unchanged.",
["inputs"],"all sizes, real matrices with real or complex-conjugate eigenvalues, defective-free and structured matrices, with every combination of requested outputs",
"Tests use diagonal or random matrices; mixtures of real and complex pairs in different positions and combinations of requested outputs are not covered.",
["src/linalg/eig_d.cc","src/linalg/eig_z.cc","src/linalg/eig_sym_d.cc","src/linalg/eig_sym_z.cc"],
[("general eigenproblem and unpacking of conjugate pairs","src/linalg/eig_d.cc, src/linalg/eig_z.cc"),("symmetric eigenproblem","src/linalg/eig_sym_{d,z}.cc")])

p("C20","The power method finds the dominant eigenpair",
"For every matrix with a dominant eigenvalue well separated in modulus from the others, the power method returns that eigenvalue and a normalised right (or left) eigenvector within the requested tolerance, for dense, sparse and function-defined matrices, real and complex, with or without an initial vector that is not orthogonal to the solution, given enough iterations. The matrix is unchanged.",
["inputs"],"all sizes and spectra with a gap, left and right, dense/sparse/function, real and complex, with and without starting vector",
"Tests use diagonal or random matrices of a fixed kind, without left vectors of non-symmetric or complex matrices.",
["src/linalg/eig_power.hpp","src/linalg/eig_power_d.cc","src/linalg/eig_power_z.cc","src/linalg/eig_power_sp_d.cc","src/linalg/eig_power_map_d.cc"],
[("power iteration","src/linalg/eig_power.hpp"),("front ends","src/linalg/eig_power_*.cc")])

p("C21","Iterative eigensolvers return the requested part of the spectrum",
"Asking for a few eigenvalues of a matrix by largest or smallest magnitude, real part or (complex matrices) imaginary part returns exactly that many eigenvalues, each an eigenvalue of the matrix, and together those that the criterion selects from the full spectrum; the vectors returned satisfy the eigenvalue equation. This holds for real symmetric and general complex matrices, given dense, sparse or as a function, with or without an initial vector, and dense, sparse and function forms agree. Matrices that are not square, unknown criteria and impossible numbers of eigenvalues are refused, a search that did not converge is reported as such and never passed off as a result, a limit set on the iterations is obeyed, and every call and every solver, finished or abandoned, releases the memory it took.",
["inputs"],"all sizes, spectra with separated selected eigenvalues, selection criteria, numbers of eigenvalues, dense/sparse/function, real and complex",
"Tests use diagonal matrices or few random ones; criteria, small-size code path and representation are not crossed.",
["src/arpack/arpack_d.cc","src/arpack/arpack_z.cc","src/arpack/arpack_t.cc","src/arpack/eigs_d.cc","src/arpack/eigs_z.cc","src/arpack/eigs_sp_t.cc","src/arpack/eigs_map_d.cc","include/tensor/arpack.h"],
[("reverse-communication driver","src/arpack/arpack_{d,z,t}.cc"),("front ends and small-matrix path","src/arpack/eigs_*.cc")])

p("C22","The matrix exponential is the matrix exponential",
"For every square real or complex matrix of moderate norm, the exponential equals the power series of the matrix within rounding error relative to its norm, for any approximation order of at least the default; in particular it is the identity for zero, elementwise on diagonals, multiplicative on commuting arguments, inverse under negation and compatible with transposition and similarity. The argument is unchanged.",
["inputs"],"all sizes, norms from zero to tens, structured (diagonal, nilpotent, anti-Hermitian) and general, real and complex",
"Tests use diagonal, Pauli and random matrices of small norm.",
["src/linalg/expm_d.cc","src/linalg/expm_z.cc"],
[("Pade approximation with scaling and squaring","src/linalg/expm_{d,z}.cc")])

p("C23","The conjugate gradient solver converges to the solution",
"For every well-conditioned symmetric (Hermitian) positive definite system the conjugate gradient solver returns x with A*x=b within the requested tolerance, from any starting vector or none, for matrices given dense, sparse or as a function, real or complex, and for right-hand sides of any shape in function form. The arguments, starting vector included, are unchanged, and a zero right-hand side gives zero.",
["inputs"],"all sizes, positive definite spectra, right-hand sides, starting vectors, iteration and tolerance settings, dense/sparse/function, real and complex",
"Tests solve the identity and a few random systems without starting vectors.",
["src/linalg/cgs.cc","src/linalg/cgs_d.cc","src/linalg/cgs_z.cc","src/linalg/cgs_sp_d.cc","src/linalg/cgs_map_d.cc","include/tensor/map.h","src/tools/map.cc"],
[("iteration","src/linalg/cgs.cc"),("matrix and function adapters","include/tensor/map.h, src/tools/map.cc")])

p("C24","Fourier transforms equal the discrete Fourier transform along each dimension",
"The forward transform of a tensor over all dimensions, one dimension or a chosen set of them equals the discrete Fourier sum along those dimensions for every shape; the inverse undoes it with the documented normalisation, the in-place and out-of-place forms agree, and arguments passed by value stay unchanged even when they share data. Shifting moves element i to position (i + floor(n/2)) mod n along the selected dimensions and the inverse shift undoes it, for odd and even sizes.",
["inputs"],"all ranks, sizes (odd, even, prime, one), selected dimensions, directions and data",
"Tests use few sizes and compare with stored values; partial-dimension transforms on high rank and odd-size shifts are sampled sparsely.",
["include/tensor/fftw.h","src/fftw/fftw.cc","src/fftw/fftw_inplace.cc","src/fftw/fftw_common.cc","src/fftw/fftshift.cc"],
[("plan construction per dimension","src/fftw/fftw_common.cc"),("shift","src/fftw/fftshift.cc")])

p("C25","Saved data files give back exactly what was written",
"Any sequence of named numbers, complex numbers, tensors and vectors of tensors written to a data file, in one session or appended over several, is read back in the same order with bit-identical values and identical dimensions, for all floating point values, shapes (empty included) and names. The bytes follow the documented portable format so that an independent reader of that format gets the same records, and a file with the opposite byte order or another word size is either read correctly or refused.",
["inputs","histories"],"all sequences of records, types, shapes, values, names (empty, long, with any characters), open modes and session splits",
"The tests write one record per file; sequences, appending sessions, long names and special values are not covered.",
["include/tensor/sdf.h","src/sdf/odata_file.cc","src/sdf/idata_file.cc","src/sdf/data_file.cc","python/sdf.py"],
[("writer","src/sdf/odata_file.cc"),("reader","src/sdf/idata_file.cc"),("independent reader","python/sdf.py")])

p("C26","A data file survives crashes and write failures as promised",
"A file being replaced in the safe-overwrite mode has, at every instant and after a crash at any point, either its complete previous contents or its complete new contents under its name; records already stored in a file opened for appending are never altered by a later session, however that session ends. A write that the system could not complete, from opening the file to closing it, is reported as an error and never silently taken as success.",
["crash_points","fault_sequences","histories"],"all crash points (every system call that touches the file) and write faults (no space at any byte, unopenable target) during any sequence of sessions",
"Unit tests never interrupt the program or fail a system call.",
["src/sdf/data_file.cc","src/sdf/odata_file.cc","src/sdf/rename_file.cc","src/sdf/delete_file.cc"],
[("temporary name and rename on close","src/sdf/data_file.cc, src/sdf/rename_file.cc"),("stream error checks","src/sdf/odata_file.cc: write_raw, close")])

p("C27","Damaged or mismatched data files are refused, never misread",
"Reading a file that is missing, truncated at any byte, or altered in its header, record names, type tags, ranks, dimensions or lengths, or reading a record under another name or as another type, ends in a reported failure or in well-formed values explained by the bytes present: it never yields contents that are not in the file, never touches memory out of bounds and always ends. Intact records that precede the damage are still read correctly.",
["inputs","fault_sequences"],"all truncations and corruptions of all valid files, and all mismatches between what is stored and what is requested",
"Unit tests read only intact files.",
["src/sdf/idata_file.cc","src/sdf/data_file.cc"],
[("header, name and tag checks","src/sdf/idata_file.cc: read_header, read_tag, read_variable_name"),("raw reads","src/sdf/idata_file.cc: read_raw")])

p("C28","Processes sharing a data file never mix or lose each other's records",
"When several processes append to the same data file in the shared mode, each session's records appear in the file contiguously and complete, none is lost or interleaved with another's, and no process sees a half-written session; every process eventually gets its turn and the lock left by a process that died does not block the others. At most one process holds the file at any time.",
["schedules","histories"],"all interleavings of opening, writing, closing and dying by any number of processes",
"Unit tests are single-process; lock hand-over needs particular timings.",
["src/sdf/data_file.cc","src/tools/jobs_dataset.cc","src/tools/jobs_save.cc"],
[("lock file acquisition and release","src/sdf/data_file.cc: get_lock, giveup_lock"),("shared data sets of jobs","src/tools/jobs_dataset.cc")])

p("C29","Parameter scans visit every combination of values exactly once",
"A job description with any number of variables, given on the command line options or in a job file, each constant or spanning a number of equally spaced values from its minimum to its maximum, enumerates as many jobs as the product of the numbers of values, each job having a distinct combination and all combinations being visited, with the first variable varying fastest. Looking up a variable gives its value in the current job, its default when absent and a refusal when it is required, and stored variables are those values; malformed descriptions are refused.",
["inputs","configurations"],"all numbers of variables, value ranges and counts, separators and layouts of the job file, job numbers",
"The tests build fixed job lists in memory; the parser and large products are hardly covered.",
["include/tensor/jobs.h","src/tools/jobs.cc","src/tools/jobs_save.cc"],
[("job file and line parser","src/tools/jobs.cc: parse_line, parse_file"),("mixed-radix job selection","src/tools/jobs.cc: select_job")])

p("C30","Splitting a scan among processes covers every job exactly once",
"For any number of jobs and any number of blocks, running every block number processes each job exactly once: blocks are disjoint, consecutive and together complete, also when there are more blocks than jobs or the division is uneven. Selecting a single job or a first and last job runs exactly those in increasing order, a missing block number means the first block, and inconsistent or out-of-range selections are refused or run nothing.",
["configurations","inputs"],"all numbers of jobs, blocks, block numbers and combinations of first/last/this job options",
"The tests check a few even and uneven splits; the interplay of options and extreme counts is not covered.",
["src/tools/jobs.cc","include/tensor/jobs.h"],
[("option handling and block arithmetic","src/tools/jobs.cc: Job::Job, operator++, to_do")])

p("C31","Random numbers are reproducible, in range and correctly generated",
"With a given seed, the stream of random numbers is the published 64-bit Mersenne twister sequence, identical across runs and reseeding, whether seeded by an integer or an array; reals lie in [0,1) with 53-bit resolution, bounded integers lie in [0,bound) and between given limits, including the largest bounds, and every value of a small range occurs. Random tensors take their elements from the stream and have the requested shape.",
["inputs","histories"],"all seeds, bounds and sequences of mixed requests",
"Tests check means of one stream; ranges at the largest bounds, reseeding in mid-stream and conformity of the sequence are not covered.",
["include/tensor/rand.h","src/rand/rand.cc","src/rand/rand64.cc","src/rand/mt.h"],
[("Mersenne twister state and tempering","src/rand/rand64.cc"),("typed front ends","src/rand/rand.cc, include/tensor/rand.h")])

p("C32","Text output shows every element once, in order",
"The text form of vectors, index lists, tensors and sparse matrices contains the dimensions and every element in column-major order, so that the printed values parse back to the elements at the stream's precision, and the matrix form of a vector or matrix shows one line per row with the elements of each row in order, higher ranks being refused; sparse matrices print as their dense equivalent. Printing changes neither the object nor the stream's later output.",
["inputs"],"all shapes (empty included), element values, real and complex, dense and sparse, stream precisions",
"There is no test of the printed form at all.",
["include/tensor/io.h","include/tensor/detail/io.hpp","src/views/matrix_form.cc"],
[("stream operators","include/tensor/detail/io.hpp"),("matrix form","src/views/matrix_form.cc")])

p("C33","Matrices, functions and bound arguments act as linear maps and closures",
"A matrix wrapped as a map, dense or sparse, plain or transposed, applied to a tensor of any rank gives the contraction of its column index with the first index of the tensor (transposed: of its row index with the last index), and a wrapped function or functor gives what it returns. Binding one to five trailing arguments of a function gives a map which calls it with the argument followed by the bound values in their order, as they were when bound. Matrix maps and closures keep their own copies of what they wrap, maps may be applied repeatedly, and none changes its argument or the objects it was made from.",
["inputs","histories"],"all shapes of matrices and arguments, sparse patterns, element types, numbers and types of bound arguments, later changes to the originals",
"Tests only reach maps through the solvers, on vectors and without later changes.",
["include/tensor/map.h","include/tensor/detail/functional.h","src/tools/map.cc"],
[("matrix and function maps","include/tensor/map.h, src/tools/map.cc"),("closures","include/tensor/detail/functional.h")])

p("C34","File helpers do what was asked or report that they could not",
"Asking whether a name exists or is a directory gives the file system's answer for files, directories, links, special files and missing names. Deleting, renaming and creating directories either take effect as asked and report success, or leave everything as it was and report failure: a rename that may not overwrite never destroys its destination, and no helper touches any other name. Repeating any helper in any order keeps this true.",
["histories","inputs"],"all histories of helper calls over trees of files, directories, links and special files, with existing and missing names",
"Tests call the helpers on a plain file only, if at all.",
["src/sdf/isdir.cc","src/sdf/file_exists.cc","src/sdf/delete_file.cc","src/sdf/rename_file.cc","src/sdf/make_directory.cc","include/tensor/sdf.h"],
[("one system call per helper","src/sdf/{isdir,file_exists,delete_file,rename_file,make_directory}.cc")])

p("C35","Flags keep the value last given to their key",
"Creating a flag gives a key that is not in use with the given value; afterwards each key of a registry has the value last set for it, whatever happens to other keys or other registries, and copies of a registry are independent. The value comes back bit for bit. Reading or changing a key that was never created is refused.",
["histories","inputs"],"all histories of creating, setting, getting and copying, all values",
"No test uses the registry directly.",
["src/tools/flags.cc","include/tensor/flags.h"],
[("registry","src/tools/flags.cc")])

p("C36","Timers measure elapsed time and aborts end in a traced failure",
"After tic() the timer gives, at every later toc(), the real time in seconds that went by since the latest tic(), and toc(t) that since the tic() which returned t, exact to the microsecond whatever the length of the interval, the number of earlier readings and the processor time used. With the abort handler installed, any abort of the process (explicit, by signal, failed assertion, refused operation or uncaught exception, at any depth of calls) writes a trace of the active calls to the standard error stream and ends the process at once with a failure status, keeping what was written before, and a process that does not abort is not affected.",
["histories","inputs"],"all histories of tic and toc and lengths of intervals, all ways and depths of aborting",
"No test looks at the timers or at what an abort leaves behind.",
["include/tensor/tools.h","src/tools/tictoc.cc","src/tools/backtrace.cc"],
[("one stored time, differences","src/tools/tictoc.cc"),("handler of SIGABRT","src/tools/backtrace.cc")])

json
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
import os
for x in P:
    for q in x['anchors']['files']:
        if not os.path.exists('/repo/'+q): print(x['id'],q)
    import re
    n=len(re.findall(r'[.](?:\s|$)',x['statement']))
    if n>3: print(x['id'],'sentences',n)

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=hook)))

p("F01", "Field arithmetic is exact for every irreducible minimal polynomial",
  "For every degree from 2 to 16 and every irreducible polynomial f of that degree, a field created from f multiplies any two elements exactly as GF(2)[x]/(f) does, and its inverse of any non-zero element times that element is one. The precomputed data of the field (powers of the generator, reduction values, element width) and the derived 16-bit multiplication tables agree with the same arithmetic.",
  ["inputs", "configurations"], "every irreducible minimal polynomial of degree 2..16, all pairs of elements (exhaustive for small degrees)",
  "The tests use only the first listed polynomial of each degree and compare the library with itself; an error specific to another polynomial or to particular operand pairs is never executed.",
  ["src/gf2e.c", "src/gf2e.h", "src/gf2x.h"],
  [("gf2e_init builds red, pow_gen and the product tables", "src/gf2e.c:gf2e_init"), ("_gf2e_mul_table / _gf2e_mul_arith", "src/gf2e.h"), ("gf2x_invmod", "src/gf2x.h"), ("gf2e_t16_init", "src/gf2e.h")],
  ["gf2e_mul, gf2e_inv, ff->mul, ff->inv, ff->pow_gen, ff->red, gf2e_degree_to_w, gf2e_t16_init"],
  [("red, pow_gen, _mul", "precomputed reductions, generator powers and products of one field", "gf2e struct")])

p("F02", "Binary polynomial arithmetic and the irreducible table are correct",
  "Multiplication, division, remainder, degree and modular inversion of polynomials over GF(2) held in machine words satisfy their defining identities for every operand within their documented ranges. The shipped table of irreducible polynomials contains, for every degree from 1 to 16, exactly the irreducible polynomials of that degree, each once.",
  ["inputs"], "all operand pairs within the documented degree limits; all table entries",
  "No test calls these helpers directly; the ones they do exercise indirectly see only degree-e operands of one field.",
  ["src/gf2x.h", "src/gf2e.c"],
  [("gf2x_mul/div/mod/divmod/deg/invmod", "src/gf2x.h"), ("irreducible_polynomials", "src/gf2e.c")],
  ["return values of gf2x_*; contents of irreducible_polynomials"])

p("E01", "Packed matrices behave as arrays of field elements",
  "Creating, filling, reading, writing, adding to, copying, comparing, concatenating, stacking, cutting out and adding packed matrices gives, entry by entry, the result the same operation has on a plain two-dimensional array of field elements, for all dimensions, fields and positions. Randomising yields only valid field elements and draws every entry anew, independently of its old content and of the other entries.",
  ["inputs", "configurations"], "all fields, all shapes (word boundaries, single rows/columns), all positions and contents, with preallocated or fresh results",
  "Tests use one field per degree and a handful of shapes, and mostly check operations against each other.",
  ["src/mzed.h", "src/mzed.c"],
  [("element accessors over packed words", "src/mzed.h:mzed_read_elem/mzed_write_elem/mzed_add_elem"), ("concat/stack/submatrix/copy/set_ui/add/cmp", "src/mzed.h, src/mzed.c")],
  ["entries of the resulting matrices, comparison results"])

p("E02", "Bit-sliced matrices behave as arrays of field elements",
  "Creating, filling, reading, writing, adding to, copying, comparing, concatenating, stacking, cutting out and adding bit-sliced matrices gives, entry by entry, the result the same operation has on a plain two-dimensional array of field elements, for all dimensions, fields and positions. Randomising draws every entry anew, independently of its old content and of the other entries. Temporarily extending the number of slices and shrinking it back keeps all entries.",
  ["inputs", "configurations"], "all fields, all shapes, positions and contents",
  "Sliced basic operations are touched by a few smoke tests on one field per degree.",
  ["src/mzd_slice.h", "src/mzd_slice.c"],
  [("slice accessors", "src/mzd_slice.h:mzd_slice_read_elem/write_elem/add_elem"), ("concat/stack/submatrix/copy/set_ui/add/cmp/adapt_depth", "src/mzd_slice.h, src/mzd_slice.c")],
  ["entries of the resulting matrices, comparison results"])

p("C01", "Packed and bit-sliced representations convert losslessly both ways",
  "Converting any packed matrix to bit-sliced form, or any bit-sliced matrix to packed form, yields a matrix with the same entry at every position, so converting there and back is the identity. This holds for every field, every shape, and whether the destination is created by the conversion or supplied with arbitrary old content.",
  ["inputs", "configurations"], "all degrees 2..16, all shapes (in particular all column counts modulo the word size), all contents, fresh or preallocated destinations",
  "The bit-twiddling differs per degree and per column count modulo 64; tests sample a few square sizes and only check there-and-back.",
  ["src/conversion.c", "src/conversion_slice8.c", "src/conversion_slice16.c", "src/conversion_cling8.c", "src/conversion_cling16.c", "src/conversion.h"],
  [("mzed_slice dispatch to _mzed_slice2/4/8/16", "src/conversion.c"), ("mzed_cling dispatch to _mzed_cling2/4/8/16", "src/conversion.c")],
  ["entries of the converted matrix"])

p("R01", "Row and column operations change exactly the named rows and columns",
  "Adding a (multiple of a) row to another from a given column on, scaling a row from a given column on, swapping rows or columns, swapping columns in a range of rows, copying and adding rows compute the exact field result in the named places and leave every other entry as it was. Finding the first zero row returns the true position.",
  ["inputs", "configurations"], "all fields, shapes, row/column indices, start columns and scalars, in both representations",
  "The word-level code has a separate fall-through case per element position within a word; tests run start column zero or few shapes.",
  ["src/mzed.h", "src/mzed.c", "src/mzd_slice.h", "src/conversion.h"],
  [("mzed_add_multiple_of_row, mzed_add_row, mzed_rescale_row", "src/mzed.c, src/mzed.h"), ("row/column swaps and copies", "src/mzed.h, src/mzd_slice.h"), ("mzd_slice_rescale_row", "src/conversion.h")],
  ["all entries of the matrix after the operation"])

p("M01", "Every packed multiplication algorithm computes the matrix product",
  "For all conformable packed matrices over one field, multiplying them by the default entry point or by any of the provided algorithms (schoolbook, lookup-table, Strassen-Winograd with any admissible cutoff, Karatsuba over slices, bilinear maps) yields exactly the mathematical product, whether the result is freshly created or stored in a supplied matrix with arbitrary old content.",
  ["inputs", "configurations"], "all fields, all conformable shapes including the size thresholds where algorithms switch, all cutoffs, all contents",
  "Tests compare algorithms on fixed sizes with one polynomial per degree and random dense inputs.",
  ["src/mzed.c", "src/newton_john.c", "src/strassen.c", "src/conversion.h", "src/karatsuba.c"],
  [("mzed_mul dispatch", "src/mzed.c:_mzed_mul"), ("_mzed_mul_newton_john", "src/newton_john.c"), ("_mzed_mul_strassen and cutoff", "src/strassen.c"), ("mzed_mul_karatsuba, mzed_mul_blm", "src/conversion.h")],
  ["entries of the product"])

p("M02", "Every bit-sliced multiplication algorithm computes the matrix product",
  "For all conformable bit-sliced matrices over one field, multiplying them by the default entry point, by schoolbook slicing, by the degree-specific Karatsuba formulas or by a bilinear map yields exactly the mathematical product, whether the result is freshly created or stored in a supplied matrix with arbitrary old content.",
  ["inputs", "configurations"], "all fields of degree 2..16, every irreducible polynomial, all conformable shapes and contents",
  "Each degree has its own hand-written formula and reduction depends on the polynomial; tests use one polynomial per degree.",
  ["src/karatsuba.c", "src/mzd_slice.h", "src/mzd_slice.c", "src/mzd_ptr.h", "src/blm.c"],
  [("_mzd_ptr_addmul_karatsuba2..16", "src/karatsuba.c"), ("_mzd_ptr_add_modred", "src/mzd_ptr.h"), ("_mzd_slice_mul_blm", "src/mzd_slice.h")],
  ["entries of the product"])

p("M03", "Accumulating products add to the existing result",
  "For every accumulate-multiply entry point in both representations, the result matrix afterwards equals its previous content plus the product of the operands, for all fields, conformable shapes, contents and algorithm cutoffs.",
  ["inputs", "configurations"], "all fields, shapes, old contents of the result, algorithms and cutoffs",
  "Tests accumulate mostly into zero matrices or compare one algorithm with another on fixed sizes.",
  ["src/mzed.c", "src/newton_john.c", "src/strassen.c", "src/conversion.h", "src/mzd_slice.h"],
  [("mzed_addmul and variants", "src/mzed.c, src/strassen.c, src/newton_john.c, src/conversion.h"), ("mzd_slice_addmul and variants", "src/mzd_slice.h")],
  ["entries of the result"])

p("M04", "Scalar multiples are exact in both representations",
  "Multiplying a matrix by any field element, and adding a multiple of a matrix to another, yields the entrywise field result in both representations, for all shapes including those large enough for the table-driven path, and a matrix may be multiplied in a supplied result with arbitrary old content. Combining slices of a sliced matrix with scalars obeys the same rule.",
  ["inputs", "configurations"], "all fields, scalars (zero and one included), shapes on both sides of the table threshold, fresh or supplied result",
  "The table path starts at 2^17 entries and is only smoke-tested.",
  ["src/mzed.c", "src/gf2e.h", "src/mzd_slice.c", "src/mzd_slice.h"],
  [("mzed_mul_scalar with gf2e_t16 tables", "src/mzed.c"), ("mzd_slice_mul_scalar / addmul_scalar", "src/mzd_slice.c")],
  ["entries of the result"])

p("B01", "Generated bilinear maps compute polynomial and field products",
  "For every pair of operand lengths, the scheme chosen for polynomial multiplication is a valid one, and the bilinear map generated from any valid scheme, with or without reduction by a field's minimal polynomial, maps the coefficient vectors of two polynomials to the coefficients of their (reduced) product. The compiled (low-XOR) and the matrix form of the same map give the same results.",
  ["inputs", "configurations"], "all operand lengths, schemes and fields within the supported degrees; all coefficient vectors (bilinearity makes all basis pairs decisive)",
  "Tests use the maps only for the default scheme of square field products.",
  ["src/blm.c", "src/blm.h", "src/mzd_ptr.c"],
  [("crt_init", "src/blm.c"), ("blm_init_crt, _blm_finish_polymult", "src/blm.c"), ("_mzd_ptr_apply_blm_mzd / _djb", "src/blm.c")],
  ["H*(F a . G b) against the product of a and b; applied results"])

p("Y01", "Polynomials with matrix coefficients multiply and add correctly",
  "Adding and multiplying polynomials whose coefficients are bit matrices, by any of the provided methods (schoolbook, Karatsuba, evaluation-interpolation over an extension field, Chinese remaindering / bilinear map), yields exactly the coefficientwise sum and the convolution product, accumulated onto the previous content where the operation accumulates, for all lengths and shapes. Changing the number of coefficients keeps the common ones and zeroes new ones.",
  ["inputs"], "all operand lengths within the supported range, all shapes and contents, fresh or existing results",
  "A single smoke test covers a few lengths with one shape and zero results.",
  ["src/mzd_poly.h", "src/mzd_poly.c", "src/blm.c", "src/karatsuba.c", "src/mzd_ptr.h"],
  [("_mzd_poly_addmul_naive/karatsubs_balanced/crt/ext1", "src/mzd_poly.h, src/mzd_poly.c"), ("_mzd_poly_adapt_depth", "src/mzd_poly.h")],
  ["coefficients of the result"])

p("K01", "Lookup tables for a row hold all its multiples and eliminate correctly",
  "After building the lookup table for a row from a given column on, every field element indexes exactly that multiple of the row from that column on, also when a table is reused for a later column of the same matrix. Processing a range of rows with one to six such tables adds to each row in the range the multiples selected by its entries, and changes no other row.",
  ["inputs", "histories"], "all fields, rows, columns, widths, table reuse orders, row ranges, 1..6 tables",
  "Tables are only exercised inside multiplication and elimination on dense random data.",
  ["src/newton_john.c", "src/newton_john.h"],
  [("mzed_make_table (Gray code walk, stale word clearing)", "src/newton_john.c"), ("mzed_process_rows..6", "src/newton_john.h")],
  ["rows of the table selected by each element; processed rows"],
  [("T->L, T->T, T->M", "index by element, table rows, multiples by powers of the generator", "njt_mzed_t")])

p("T01", "Triangular solves satisfy the triangular system",
  "For every upper or lower triangular matrix with non-zero diagonal and every right-hand side, each triangular solver of both representations (schoolbook, table-based, recursive with any admissible cutoff, default) leaves X with T*X equal to the original right-hand side, reading only the relevant triangle of T.",
  ["inputs", "configurations"], "all fields, dimensions (across recursion and table thresholds), right-hand sides, diagonals, cutoffs, arbitrary content in the ignored triangle",
  "Tests use fixed sizes, unit polynomials and mostly zeroed opposite triangles.",
  ["src/trsm.c", "src/trsm.inl", "src/trsm.h", "src/newton_john.c"],
  [("recursive TRSM", "src/trsm.inl"), ("naive and table-based solvers", "src/trsm.c, src/newton_john.c")],
  ["X against T and the original B"])

p("P01", "PLE and PLUQ decompositions reproduce the matrix",
  "For every matrix, each decomposition routine of both representations and any recursion cutoff returns the rank r, permutations P and Q and a compact L and E (or U) such that L*E equals P*A (or L*U*Q equals P*A), with L lower trapezoidal with non-zero diagonal and E in row echelon form with unit pivots (U upper trapezoidal with unit diagonal), whatever the permutation objects held before.",
  ["inputs", "configurations"], "all fields, shapes, ranks and pivot patterns, all cutoffs",
  "The tests' rank comparisons are macro-broken and their inputs have few rank profiles.",
  ["src/ple.c", "src/ple.h", "src/newton_john.c", "src/permutation.h"],
  [("mzed_ple_naive", "src/ple.c"), ("mzed_ple_newton_john", "src/newton_john.c"), ("_mzd_slice_ple recursion, _mzd_slice_pluq", "src/ple.c")],
  ["r, P, Q and the overwritten matrix"])

p("P02", "All rank-revealing routines report the true rank and rank profile",
  "Every routine that returns a rank (all echelonisations and decompositions, in both representations, at any cutoff) returns the true rank of its input, and the pivot positions it reports or produces are the true column rank profile.",
  ["inputs", "configurations"], "all fields, shapes, ranks, rank profiles and cutoffs",
  "The tests' rank checks are vacuous because the comparison macro does not parenthesise its argument.",
  ["src/echelonform.c", "src/ple.c", "src/newton_john.c", "src/mzed.c"],
  [("returned rank and Q", "src/ple.c, src/echelonform.c, src/newton_john.c, src/mzed.c")],
  ["return values, Q values, pivots of the result"])

p("G01", "Full echelonisation yields the unique reduced row echelon form",
  "For every matrix, every echelonisation routine of either representation run in full mode overwrites the matrix with its unique reduced row echelon form.",
  ["inputs", "configurations"], "all fields, shapes, ranks, pivot patterns and sizes at which algorithms switch",
  "Tests compare algorithms with each other on fixed sizes and mostly full-rank random input.",
  ["src/echelonform.c", "src/echelonform.h", "src/newton_john.c", "src/mzed.c", "src/ple.c"],
  [("mzed_echelonize dispatch", "src/echelonform.c"), ("mzed_echelonize_naive", "src/mzed.c"), ("mzed_echelonize_newton_john", "src/newton_john.c"), ("mzd_slice_echelonize_ple", "src/echelonform.c")],
  ["the overwritten matrix"])

p("G02", "Plain echelonisation yields a row echelon form of the same row space",
  "For every matrix, every echelonisation routine of either representation run in non-full mode overwrites the matrix with a row echelon form with leading ones whose row space is that of the input.",
  ["inputs", "configurations"], "all fields, shapes, ranks, pivot patterns and sizes at which algorithms switch",
  "Tests only check that reducing further agrees for a few sizes.",
  ["src/echelonform.c", "src/newton_john.c", "src/mzed.c", "src/ple.c"],
  [("non-full elimination", "src/echelonform.c, src/newton_john.c, src/mzed.c")],
  ["the overwritten matrix, its row space"])

p("I01", "Inversion returns the inverse, and refuses singular matrices",
  "For every invertible matrix, inversion returns a matrix whose product with the input from either side is the identity, fresh or in a supplied matrix; for every singular square matrix it terminates the program with a diagnostic instead of returning.",
  ["inputs"], "all fields, dimensions, invertible and singular contents",
  "Tests invert few random matrices and never a singular one.",
  ["src/newton_john.c"],
  [("mzed_invert_newton_john", "src/newton_john.c")],
  ["returned matrix; process termination"])

p("X01", "Permutations act as permutations on rows and columns",
  "Applying a permutation or its transpose from the left or right permutes rows or columns exactly as the documented sequence of transpositions does, in both representations alike, and applying the transpose afterwards restores the matrix. The triangular variant used by the decomposition permutes within the triangular shape only.",
  ["inputs"], "all fields, shapes, transposition vectors (also shorter or longer than the matrix where the interface allows it)",
  "Only used implicitly in decomposition tests.",
  ["src/permutation.h", "src/mzed.h", "src/mzd_slice.h"],
  [("mzed_apply_p_*, mzd_slice_apply_p_*", "src/permutation.h"), ("column swaps", "src/mzed.h")],
  ["entries after application"])

p("W01", "Operations on a view act like on a copy and write nothing outside it",
  "Any operation given views into larger matrices produces in the view exactly what it would produce on standalone copies, and alters no entry of the enclosing matrix outside the view and no bit beyond a matrix's last column.",
  ["inputs", "configurations"], "all operations, fields, view positions admitted by the alignment rule, enclosing contents",
  "No test passes explicitly constructed views; algorithms only create aligned internal ones.",
  ["src/mzed.h", "src/mzd_slice.h", "src/conversion.c", "src/newton_john.c", "src/strassen.c", "src/trsm.c"],
  [("window construction", "src/mzed.h:mzed_init_window, src/mzd_slice.h:mzd_slice_init_window"), ("end-of-row masking in word loops", "src/mzed.h, src/mzed.c, src/conversion_*.c")],
  ["the enclosing matrix's words before and after"])

p("N01", "Read-only operands stay unchanged and results are reproducible",
  "No operation changes an operand it only reads, an output may be the same matrix as an input where the interface allows it, and repeating an operation on equal inputs gives equal outputs regardless of what was computed before or what the freshly allocated memory contained.",
  ["inputs", "histories"], "all operations, fields, shapes and preceding operation histories",
  "Tests check operands for a few operations and never repeat a computation in a different history.",
  ["src/mzed.c", "src/mzd_slice.h", "src/newton_john.c", "src/strassen.c", "src/conversion.c"],
  [("const operands; fresh temporaries", "all of src/")],
  ["operands and results before and after"])

p("D01", "Mismatched operands are rejected before anything is computed",
  "Every checked entry point given operands or result matrices whose dimensions or fields do not fit terminates the program with a diagnostic and never returns a result, while every fitting call returns.",
  ["inputs"], "all checked entry points, all kinds of mismatch (rows, columns, field) in each position",
  "No test provokes an error exit.",
  ["src/mzed.c", "src/conversion.h", "src/conversion.c", "src/mzd_slice.h", "src/strassen.c"],
  [("dimension and field checks calling m4ri_die", "src/mzed.c:_mzed_mul_init, mzed_add, mzed_copy; src/mzd_slice.h; src/conversion.h")],
  ["termination and diagnostic of the calling process"])

p("S01", "Arbitrary operation histories agree with the mathematical model",
  "After any sequence of operations mixing both representations (creation, conversion, arithmetic, row operations, elimination, solving, decomposition, permutation, views), every live matrix holds exactly what the same history computes on plain arrays over the same field, and every matrix created by an operation is well formed (right shape and field, no bits set past its last column).",
  ["histories", "inputs"], "operation sequences of arbitrary length and mix over a pool of matrices, one or several fields alive at once",
  "Tests run single operations on fresh inputs.",
  ["src/mzed.c", "src/mzd_slice.h", "src/conversion.c", "src/newton_john.c", "src/ple.c", "src/echelonform.c"],
  [("all public operations", "src/")],
  ["all live matrices after each step"])

p("Z01", "No operation touches memory outside its objects",
  "For all valid inputs, no operation reads or writes outside the memory of its operands and own temporaries, uses memory after releasing it, or releases it twice.",
  ["inputs", "histories"], "all operations, fields, shapes and histories of valid calls",
  "Tests run without memory instrumentation, where stray reads and small overruns stay invisible.",
  ["src/gf2e.h", "src/mzed.c", "src/mzed.h", "src/mzd_poly.h", "src/newton_john.c", "src/conversion_cling16.c", "src/conversion_slice16.c", "src/blm.c"],
  [("word loops bounded by matrix width; table sizes", "src/")],
  ["AddressSanitizer and array-bounds reports"])

p("Z02", "Operations release everything they allocate",
  "Every operation releases all temporaries it allocates, and releasing every object handed to the caller returns memory use to where it was, so any history can be repeated without memory growth.",
  ["histories", "inputs"], "all operations, algorithm paths and histories of valid calls",
  "Tests exit without looking at outstanding allocations.",
  ["src/mzed.c", "src/newton_john.c", "src/strassen.c", "src/conversion.h", "src/blm.c", "src/mzd_poly.c", "src/echelonform.c", "src/ple.c"],
  [("pairing of init and free in each routine", "src/")],
  ["outstanding allocations after repeating a history"])

p("A01", "Memory exhaustion ends in a diagnostic",
  "Whenever an allocation requested by an operation fails, the program terminates with a diagnostic on standard error: no operation returns, and none crashes by using the missing memory.",
  ["faults", "inputs"], "all operations, and every allocation request each of them makes",
  "Tests never run out of memory.",
  ["src/mzed.c", "src/mzd_slice.h", "src/mzd_poly.h", "src/mzd_poly.c", "src/gf2e.c", "src/blm.c", "src/newton_john.c", "src/mzd_ptr.c", "src/ple.c", "src/echelonform.c"],
  [("every call of m4ri_mm_malloc, m4ri_mm_calloc, mzd_init", "src/")],
  ["abort with text on standard error", "no return from the operation"])

p("U01", "No operation relies on undefined behaviour",
  "For all valid inputs, no operation shifts by the width of the operand or more, overflows a signed integer, divides by zero, accesses memory through a null or misaligned pointer, or uses the value of a function that returned none.",
  ["inputs", "configurations"], "all operations, fields, shapes (also of 2^31 elements and more) and histories of valid calls",
  "The result of undefined behaviour depends on compiler and flags; with the compiler the tests use it is often the expected one.",
  ["src/gf2e.h", "src/gf2x.h", "src/m4ri_functions.h", "src/mzed.c", "src/echelonform.c", "src/conversion.h", "src/blm.c", "src/newton_john.c", "src/ple.c"],
  [("bit positions and word shifts", "src/m4ri_functions.h, src/conversion*.c"), ("sizes compared with cutoffs", "src/echelonform.c, src/mzed.c, src/ple.c")],
  ["reports of the compiler's undefined-behaviour instrumentation"])

p("L01", "Work grows in proportion to the treated elements",
  "Converting between the representations, copying, comparing, adding, clearing, scaling and the row operations take work proportional to the number of elements treated; products, eliminations, decompositions and triangular solves take work proportional to the number of rows (or right-hand columns) when the other dimensions stay fixed.",
  ["inputs"], "all fields, operations and growing shapes",
  "The tests check results only; a needlessly repeated loop gives the right result at every size a test can afford.",
  ["src/conversion_cling16.c", "src/conversion_slice16.c", "src/conversion.c", "src/mzed.c", "src/mzd_slice.c", "src/newton_john.c", "src/ple.c", "src/trsm.c"],
  [("loops over rows and words", "src/conversion*.c, src/mzed.c, src/mzd_slice.h")],
  ["number of basic blocks executed at sizes s, 2s, 4s, 8s"])

p("L02", "Temporary memory stays proportional to the operands",
  "No operation needs more temporary memory than a fixed multiple of its operands and result, plus the lookup tables of the field; temporaries are given back as an operation proceeds, and the stack an operation uses does not depend on the dimensions of its operands.",
  ["inputs"], "all fields, operations and growing shapes",
  "The tests check results only; memory that is held too long, or on the stack, goes unnoticed until a matrix is too large.",
  ["src/mzed.c", "src/mzd_slice.h", "src/karatsuba.c", "src/strassen.c", "src/newton_john.c", "src/ple.c", "src/trsm.c", "src/blm.c", "src/mzd_ptr.c"],
  [("every temporary is released when it is no longer needed", "src/*.c, src/*.h (mzed_free, mzd_free, mzed_free_window, njt_mzed_free)")],
  ["peak memory and stack use of one call at sizes s, 2s, 4s, 8s"])

p("V01", "Every build configuration behaves alike",
  "What the other properties demand holds however the library was built: with assertions enabled (for some or all files) or disabled, by gcc or clang, at any optimisation level, and for any size of the processor's caches it was configured for. In particular no valid call fails an assertion, and no step of a computation depends on assertions being enabled.",
  ["configurations", "inputs"], "all operations, fields, shapes and histories of valid calls",
  "The tests run in the one configuration that ./configure chose; most assertions are disabled there, and thresholds derived from the cache size keep small matrices away from the recursive algorithms.",
  ["src/newton_john.c", "src/mzed.c", "src/strassen.c", "src/ple.c", "src/ple.h", "src/echelonform.c", "src/trsm.c", "configure.ac"],
  [("assertions state what every valid call satisfies", "src/*.c, src/*.h (assert)"), ("thresholds derived from __M4RI_CPU_L2_CACHE", "src/strassen.c, src/ple.h, src/newton_john.c")],
  ["results and termination of the operations in differently configured builds"])

p("H01", "Concurrent calls on separate objects do not interfere",
  "Threads that work on separate matrices, and share nothing but fields and operands that are only read, obtain exactly the results of calls made alone, however their execution is interleaved (calls into libm4ri and memory management, which are not thread-safe there, taken as indivisible); fields, polynomials with matrix coefficients and bilinear maps can be constructed and used at the same time, too.",
  ["schedules", "inputs"], "all operations, fields, numbers of calls and interleavings at basic-block granularity",
  "The tests are single-threaded, so a scratch buffer or cache shared by all callers never shows.",
  ["src/gf2e.c", "src/mzed.c", "src/mzd_slice.c", "src/newton_john.c", "src/trsm.c", "src/ple.c", "src/strassen.c", "src/conversion.c"],
  [("no state is shared between calls", "src/*.c, src/*.h (no mutable objects of static storage)")],
  ["results of two or three cooperative threads under generated schedules"])

p("Q01", "Printed matrices show exactly the stored elements",
  "Printing a matrix of either representation writes one bracketed line per row with every element in hexadecimal at a fixed width for the field, so that parsing the text gives back the matrix, and both representations print alike.",
  ["inputs", "configurations"], "all fields, shapes and contents",
  "No test reads the printed output.",
  ["src/mzed.c", "src/mzd_slice.c"],
  [("mzed_print, mzd_slice_print", "src/mzed.c, src/mzd_slice.c")],
  ["standard output"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")

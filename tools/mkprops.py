#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is easy to review and edit)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

TESTS = ("The stable tests run bin/test/result, block and partition on a dozen fixed matrices with float "
         "values and 32-bit indices; ")

prop("C01", "Unblocked formats multiply exactly like the coordinate list they came from",
     "For every finite matrix given as coordinate entries in any order (repeated entries add up, rows and columns "
     "may be empty, there may be no entries at all), building any unblocked format from it - the three coordinate "
     "layouts, both CSR layouts, CSR with compressed rows, wide rows of any width, dense - and "
     "multiplying it with x adds exactly A*x to y up to floating-point rounding, with the parallel and with the "
     "serial routine. What y held before is added to, never overwritten. This holds for every value type, every "
     "index width and every number of threads, and nothing outside y is written.",
     ["inputs", "configurations"],
     "all coordinate lists, shapes, value/index types, wide-row widths, vectors x and initial y, thread counts",
     TESTS + "only one call per format into a zeroed y, no repeated entries, no 64-bit indices, never the coordinate "
     "or compressed-row formats.",
     ["include/generic/coo.h", "include/generic/csr.h", "include/matrix/coo.1.h", "include/matrix/coo.2.h",
      "include/matrix/coo.3.h", "include/matrix/csr.1.h", "include/matrix/csr.2.h", "include/matrix/crcsr.h",
      "include/matrix/cswr.h", "include/matrix/dense.h", "include/spmv/coo.h", "include/spmv/csr.h",
      "include/spmv/crcsr.h", "include/spmv/dense.h", "include/spmv/omp/csr.h", "include/spmv/omp/crcsr.h",
      "include/spmv/omp/dense.h"],
     [("Coo_to_Coo", "include/generic/coo.h"), ("Coo_to_Csr", "include/matrix/csr.1.h, csr.2.h"),
      ("Coo_to_CrCsr", "include/matrix/crcsr.h"), ("Coo_to_Cswr", "include/matrix/cswr.h"),
      ("Coo_to_Dense", "include/matrix/dense.h"), ("spmv kernels", "include/spmv/")],
     ["y after spmv/spmv_serial of each format"])

prop("C02", "Blocked CSR formats multiply exactly for every blocking",
     "For every matrix and every way of cutting its rows and columns into consecutive non-empty groups, or any "
     "constant block size (the last block of a dimension takes the remainder; a block size larger than a dimension "
     "makes a single block), building either blocked CSR format and multiplying adds exactly A*x to y up to rounding. "
     "It does not depend on which blocks are empty, on the order or repetition of the entries, on which of the two "
     "coordinate sources the matrix is built from, on whether the matrix is marked balanced, on the width or sign of the index type, on how many of its block numbers are used, or on the number of threads.",
     ["inputs", "configurations"],
     "all matrices, row and column partitions, block sizes, balanced/unbalanced marking, index widths, thread counts",
     TESTS + "only the block size the library picks, square blocks, the balanced strategy, one source layout.",
     ["include/matrix/csbr.h", "include/matrix/csbr.2.h", "include/generic/gsb.h", "include/spmv/omp/gsb.h",
      "include/partition.h", "include/utils.h"],
     [("Coo_to_Csbr", "include/matrix/csbr.h, csbr.2.h"), ("Coo_to_Blocked", "include/generic/gsb.h"),
      ("sort_elements_blocks, sort_triplets_blocks, calculate_block_id", "include/utils.h"),
      ("spmv_blocked", "include/spmv/omp/gsb.h")],
     ["y after spmv"])

prop("C03", "Generalised block formats multiply exactly for every mix of block kinds",
     "For every matrix, blocking (variable or constant block sizes) and small-index type, signed or not, that can hold the indices inside a block, both generalised block formats add exactly A*x to y up to rounding, whichever kind (coordinate, "
     "CSR, dense) is chosen for each block. The balanced and the within-block-row parallel strategy and the serial "
     "routine give the same y. This holds with any number of threads and with a caller-supplied choice of block kinds.",
     ["inputs", "configurations"],
     "all matrices, blockings, small-index widths (8, 16, 32 bits), block densities, strategies, thread counts",
     TESTS + "only blocks of the picked size, 16- and 32-bit small indices; which kinds of blocks occur depends on "
     "those matrices, and the strategy is the one the library picks for them.",
     ["include/matrix/cgbr.h", "include/matrix/cgbr.2.h", "include/matrix/blocks.h", "include/matrix/block_coo.1.h",
      "include/matrix/block_csr.h", "include/matrix/dense.h", "include/matrix/coo.1.h", "include/spmv/omp/gsb.h",
      "include/partition.h"],
     [("Coo_to_Cgbr", "include/matrix/cgbr.h"), ("Coo_to_MatrixBlock", "include/matrix/cgbr.h"),
      ("Cgbr2::create", "include/matrix/cgbr.2.h"), ("BlockFactoryDefault", "include/matrix/blocks.h"),
      ("spmv_chunk", "include/spmv/omp/gsb.h")],
     ["y after spmv/spmv_serial"])

prop("C04", "Parallel multiplication is free of data races on every schedule",
     "No two threads ever access the same element of y, or any other shared memory, without ordering when one of "
     "them writes, while a matrix of any format is multiplied or built in parallel, on any matrix and with any number "
     "of threads. The result is therefore the same for every schedule and number of threads (up to rounding), and "
     "one matrix can be multiplied repeatedly, and by several threads at the same time, each with a y of its own, while "
     "different matrices can be built, multiplied, written, read and released by different threads at the same time.",
     ["schedules", "inputs"],
     "all thread schedules and thread counts, all matrices and formats with a parallel routine",
     "A test run sees one schedule; a lost update needs two threads to meet on the same element within nanoseconds "
     "and the tests accept small numerical differences.",
     ["include/spmv/omp/csr.h", "include/spmv/omp/crcsr.h", "include/spmv/omp/dense.h", "include/spmv/omp/gsb.h",
      "include/matrix/cswr.h", "include/matrix/csbr.2.h", "include/permute.h", "include/expand.h",
      "dep/pss/parallel_stable_sort.h"],
     [("omp parallel for / task / taskwait", "include/spmv/omp/gsb.h"), ("private accumulators", "include/spmv/omp/"),
      ("temp buffer of a chunk", "include/spmv/omp/gsb.h")],
     ["ThreadSanitizer with the OpenMP runtime's annotations", "y across thread counts"])

prop("C05", "A block-row partition covers every non-empty block once and in order",
     "For every blocked matrix and number of threads, each block-row is cut into at least one chunk; its chunks start "
     "at the block-row's first non-empty block, end at its last, never go backwards, and together cover each block of "
     "that block-row exactly once. Half an even share being the matrix's non-zeros divided by twice the number of "
     "threads at the time of building, a block-row is only cut where the values stored since the previous cut, "
     "boundary blocks included, exceed half an even share, and the blocks of a chunk other than its first and last "
     "never exceed it together, so work is split. Printing the partition shows these chunks.",
     ["inputs", "configurations"],
     "all blocked matrices, thread counts, formats with a partition",
     "bin/test/partition prints chunk counts for a few matrices; a lost or doubled block only shows for particular "
     "block populations and thread counts.",
     ["include/partition.h", "include/spmv/omp/gsb.h"],
     [("partition_blockrow", "include/partition.h"), ("partition_init", "include/partition.h"),
      ("partition_dump", "include/partition.h")],
     ["chunk boundaries of a built matrix", "the dump printed by bin/test/partition"])

prop("C06", "Building and releasing matrices in any order never loses or alters entries",
     "Over any history of building formats from a coordinate matrix, multiplying, and releasing: the formats that "
     "only reorder their source (CSR, CSR with compressed rows, wide rows, dense, blocked CSR built from the layout "
     "with block numbers) leave it holding exactly the same entries, so it can be used again for any other format. "
     "A built matrix owns its data: later changes to or release of the source or of other matrices do not affect it, "
     "and every built matrix still multiplies correctly and reports the number of entries it was built from.",
     ["histories", "inputs"],
     "all sequences of build, multiply, modify-source, release operations over several matrices",
     "The tests build each format once, in one fixed order, from one source.",
     ["include/generic/coo.h", "include/matrix/csr.1.h", "include/matrix/csr.2.h", "include/matrix/crcsr.h",
      "include/matrix/cswr.h", "include/matrix/csbr.h", "include/matrix/csbr.2.h", "include/matrix/cgbr.h",
      "include/matrix/cgbr.2.h", "include/utils.h"],
     [("copying constructors", "include/matrix/*.h"), ("release", "include/matrix/*.h")],
     ["entries of the source after each step", "y of every live matrix"])

prop("C07", "Every sort orders the entries and is a permutation of them",
     "Each sorting routine (row-major, column-major, Morton order, by block number, by wide row, by blocking) returns "
     "exactly the entries it was given, each as often as before, in the order it is named for, for any number of "
     "entries and threads and any initial order; all but the by-blocking sort keep entries that compare equal in "
     "their original order. The by-blocking sort groups entries by block, blocks in row-major order. This remains so "
     "when the temporary buffer of the parallel sort cannot be allocated.",
     ["inputs", "schedules", "fault_sequences"],
     "all arrays (sizes around the sequential cut-offs and far above), key distributions, thread counts, allocation "
     "failure of the sort buffer; Morton order for indices below 65536 in an unsigned index type of 32 bits or more",
     "Tests only sort through the constructors, on column-major input without equal keys, where an unstable or "
     "partial order often gives the same product.",
     ["include/utils.h", "dep/pss/parallel_stable_sort.h", "dep/pss/pss_common.h"],
     [("sort_triplets*", "include/utils.h"), ("sort_elements_blocks", "include/utils.h"),
      ("bit_interleave", "include/utils.h"), ("parallel_stable_sort", "dep/pss/parallel_stable_sort.h")],
     ["the array after the call"])

prop("C08", "A MatrixMarket file is read as its header says",
     "Reading any well-formed coordinate MatrixMarket file gives the matrix the file describes: zero-based entries in "
     "file order with their values, pattern entries counting as 1, integer and real fields, the mirrored entry added "
     "for off-diagonal entries of symmetric files and negated for skew-symmetric ones, and the declared dimensions, "
     "whatever the letter case of the header, the comment lines and the white space between numbers. Kinds of matrix "
     "that are not supported (complex, Hermitian, array) and symmetric files that are not square are refused with a negative result, not read as something else, and so are matrices whose rows, columns or entries the index type cannot count. The reader chosen for a file depends only on its name's ending.",
     ["inputs"],
     "all well-formed MatrixMarket coordinate files and all header kinds, for each coordinate layout and index width",
     TESTS + "one general and one symmetric real file written by the test itself.",
     ["include/io/input.h", "dep/mm_io/mm_io.c", "dep/mm_io/mm_io.h", "src/common.cpp"],
     [("read_mm_COO", "include/io/input.h"), ("mm_read_banner, mm_read_mtx_crd_size", "dep/mm_io/mm_io.c"),
      ("read_COO", "include/io/input.h"), ("string_ends_with", "src/common.cpp")],
     ["the coordinate matrix returned", "the return value"])

prop("C09", "Writing a MatrixMarket file and reading it back changes nothing",
     "Every coordinate matrix (of dimensions up to 2^63-2) written to a MatrixMarket file and read back, in any "
     "coordinate layout and with any index width that can hold its indices, has the same dimensions and the same entries in the same order with bit-identical finite values, "
     "for single and double precision. The file is a valid general real coordinate file with one-based indices that "
     "an independent reader understands the same way.",
     ["inputs"],
     "all coordinate matrices with dimensions up to 2^63-2, all finite float/double values including "
     "subnormal, tiny and huge ones, negative zero",
     "No test writes a matrix.",
     ["include/io/output.h", "include/io/input.h", "dep/mm_io/mm_io.c"],
     [("write_mm_COO", "include/io/output.h"), ("read_mm_COO", "include/io/input.h")],
     ["the file", "the matrix read back"])

prop("C10", "Binary matrix files have the documented layout and round-trip exactly",
     "A matrix written as .bin has exactly the documented layout (rows, columns, number of non-zeros, all row "
     "indices, all column indices, all values, native types, nothing else), and reading a file of that layout gives "
     "back dimensions and entries in file order, bit for bit, for every value and index type and coordinate layout. "
     "When the entries are sorted by row, reading the same file straight into either CSR layout gives the matrix that "
     "building CSR from the coordinate matrix gives.",
     ["inputs"],
     "all coordinate matrices, value bit patterns (including NaN payloads), value/index types",
     TESTS + "one .bin file, read as float with 32-bit indices; none is written and the CSR readers are never used.",
     ["include/io/output.h", "include/io/input.h", "README.md"],
     [("write_bin_COO(A, filename)", "include/io/output.h"), ("read_bin_COO(A, filename)", "include/io/input.h"),
      ("read_bin_CSR", "include/io/input.h")],
     ["bytes of the file", "the matrix read back", "y of the CSR matrix"])

prop("C11", "Three-file binary matrices and plain arrays round-trip exactly",
     "Writing a coordinate matrix as separate row, column and value files and reading them back yields the same "
     "entries in the same order bit for bit, and dimensions one larger than the largest row and column index (one "
     "when there are no entries). The files hold nothing but the raw arrays. Arrays of any element type written to and "
     "read from a file come back unchanged with the right element count.",
     ["inputs"],
     "all coordinate matrices and arrays, element types, coordinate layouts",
     "No test uses these files.",
     ["include/io/output.h", "include/io/input.h", "src/common.cpp"],
     [("write_bin_COO(A, rows, cols, vals)", "include/io/output.h"), ("read_bin_COO (3 files)", "include/io/input.h"),
      ("write_bin_array / read_bin_array", "include/io/output.h, input.h"), ("get_file_size", "src/common.cpp")],
     ["bytes of the files", "the matrix read back"])

prop("C12", "A blocked file read into any blocked format is the matrix that was written",
     "A matrix with block numbers, sorted by block and written to a blocked file, then read into blocked CSR (either "
     "kind) or the generalised block format with the same blocking, multiplies, counts its entries and releases "
     "exactly like the same format built in memory. This holds for any blocking, any number of entries (also none, or "
     "one), repeated entries, and any index type, signed or not; nothing is lost at block or file boundaries.",
     ["inputs"],
     "all matrices and blockings, value/index types, the three formats that can be read",
     "No test reads or writes a blocked file.",
     ["include/io/blocked.h", "include/io/output.h", "include/utils.h"],
     [("write_bin_blocked", "include/io/output.h"), ("read_bin_blocked", "include/io/blocked.h")],
     ["y of the matrix read", "its number of entries and blocks"])

prop("C13", "Damaged or truncated matrix files are refused, never read as a matrix",
     "Reading a coordinate matrix from any file or set of files (MatrixMarket, .bin, three binary files) either "
     "reports failure by a negative result or returns a matrix all of whose entries lie inside its dimensions and "
     "were all present in the file; it never crashes, hangs, reads or writes outside its buffers, leaves a file open, or "
     "allocates memory out of proportion to the file. In particular missing files, files cut short anywhere in header or data, "
     "malformed numbers, negative sizes and out-of-range indices are refused, and the direct CSR readers refuse a "
     "file that is cut short, has sizes that cannot be, or an index out of range.",
     ["inputs", "fault_sequences"],
     "all byte strings as files: valid files with cuts, byte changes, inserted tokens, and arbitrary text",
     "No test feeds an invalid file.",
     ["include/io/input.h", "dep/mm_io/mm_io.c", "src/common.cpp"],
     [("read_mm_COO", "include/io/input.h"), ("read_bin_COO", "include/io/input.h"),
      ("read_bin_CSR", "include/io/input.h"), ("mm_read_banner, mm_read_mtx_crd_size", "dep/mm_io/mm_io.c")],
     ["return value", "AddressSanitizer", "the matrix returned"])

prop("C14", "A failed write is reported, never passed off as success",
     "Every routine that writes a matrix or an array returns zero only if the complete contents reached the file, "
     "and a negative result if the file cannot be created or any byte could not be written, wherever in the output "
     "the device becomes full. It neither crashes nor hangs when writing fails, and leaves no file open.",
     ["fault_sequences", "inputs"],
     "all matrices and arrays, all write routines, every byte offset at which the output can hit a size limit, "
     "missing directories",
     "No test writes a file, let alone to a full device.",
     ["include/io/output.h"],
     [("close_output", "include/io/output.h"), ("write_*", "include/io/output.h")],
     ["return value against the bytes that reached the file"])

prop("C15", "Permutations and their inverses obey the permutation laws",
     "Permuting indices replaces every index by the permutation's entry for it, and only that; the inverse of a "
     "permutation undoes it in both orders, is itself a permutation, and inverting twice gives the original. Applied "
     "to rows and columns of a matrix, values stay with their entries and multiplication commutes with the "
     "permutation. This holds for every size and number of threads.",
     ["inputs", "schedules"],
     "all permutations, index arrays of any length (also other than the permutation's), thread counts, index types",
     "No test permutes anything.",
     ["include/permute.h"],
     [("invert_permutation", "include/permute.h"), ("permute_indeces", "include/permute.h")],
     ["the arrays after the call"])

prop("C16", "Block expansion moves entries between aligned blocks and nothing else",
     "Expanding a blocked index space to a constant block size uses the smallest power of two that holds the largest "
     "block, keeps every index at the same offset within its own block, and therefore preserves the order and "
     "distinctness of indices and the block each belongs to. Rows and columns of matrix entries are expanded the same "
     "way as plain index arrays, values unchanged, for any block sizes and number of threads.",
     ["inputs", "schedules"],
     "all block size vectors, index arrays and matrices, thread counts",
     "No test expands anything.",
     ["include/expand.h", "include/utils.h", "src/common.cpp"],
     [("expand_block_size, expand_index, expand_indeces", "include/expand.h"),
      ("index_to_blockindex, size_to_offset", "include/utils.h"), ("next_power_of_two", "src/common.cpp")],
     ["the arrays after the call"])

prop("C17", "The block size the library picks is always usable",
     "For every matrix shape, value size and number of workers the picked block size is a power of two, at least one "
     "and no larger than the larger dimension rounded up to a power of two; one block's share of a vector fits in the "
     "L2 cache size the library assumes; and building any blocked format with it succeeds. When both rounded "
     "dimensions exceed eight times the workers (more than one), the size yields at least eight block-rows per worker "
     "in the rounded matrix. Dimensions are those the index type can count and memory can address (up to 2^48).",
     ["inputs", "configurations"],
     "all shapes from 1x1 to the limits of the index type, value sizes, worker counts",
     "bin/test/result uses the picked size on a dozen shapes and clips it to the matrix first.",
     ["include/utils.h", "src/common.cpp", "include/params.h"],
     [("pick_block_size", "include/utils.h"), ("highest_bit_set, next_power_of_two", "src/common.cpp")],
     ["the value returned", "the matrix built with it"])

prop("C18", "The index and vector file tools transform exactly what they say",
     "The command line tools that work on raw files do exactly their transformation for every input file: permute and "
     "ipermute write, next to each index file, the indices mapped through the permutation or its inverse; one2zero "
     "subtracts one from every 32-bit index; double2float rounds every double to the nearest float; pprint shows "
     "every value. Element counts and order are kept, inputs are untouched, and a missing input, an index beyond the "
     "permutation, an index zero given to one2zero, a file too short for the values its header promises to pprint, an "
     "input of double2float or pprint that cannot be read, or an output that cannot be written ends in a nonzero exit "
     "status.",
     ["inputs"],
     "all index/vector files (also empty), permutations, tool invocations",
     "No test runs a tool.",
     ["src/tools/permute.cpp", "src/tools/one2zero.c", "src/tools/double2float.c", "src/tools/pprint.c",
      "include/permute.h", "include/io/input.h", "include/io/output.h"],
     [("main of each tool", "src/tools/")],
     ["output files, standard output and exit status of the tools"])

prop("C19", "The matrix file tools keep the matrix and order it as documented",
     "The matrix tools (convert, sort, convert_blocked, expanded, prepare) write files that hold exactly the entries "
     "of their input with values bit-identical, only reordered - column-major for convert and expanded, row-major or "
     "by block for sort, by block number, row and column for blocked files - and with the dimensions of the input or, "
     "where block sizes are given, the sum of the block sizes. Permutation and expansion are applied as those tools "
     "define them, runs at the same time do not disturb each other, and every output can be read back by the library's "
     "reader for that file type. A missing or damaged input, an index beyond the permutation or the blocks, or an output "
     "that cannot be written ends in a nonzero exit status.",
     ["inputs"],
     "all matrices and block size files, permutations, tool invocations and option values",
     "No test runs a tool.",
     ["src/tools/convert.cpp", "src/tools/sort.cpp", "src/tools/convert_blocked.cpp", "src/tools/expanded.cpp",
      "src/tools/prepare.cpp", "include/io/output.h", "include/io/input.h", "include/utils.h", "include/expand.h"],
     [("main of each tool", "src/tools/"), ("write_bin_blocked", "include/io/output.h")],
     ["output files and exit status of the tools"])

prop("C20", "Matrices neither leak, nor corrupt, nor double-free memory",
     "Over any sequence of building, reading, multiplying, printing and releasing matrices of any format, no memory "
     "outside the objects' own storage is read or written, no uninitialised value decides the outcome, every block is "
     "freed exactly once with the matching function, and after all matrices of the sequence are released as much "
     "memory is in use as before it. Block boundaries handed to a blocked matrix as arrays from new[] belong to it "
     "and are released with it.",
     ["histories", "inputs"],
     "all sequences of build, read, multiply, print, release over all formats, types, shapes and blockings",
     "The test programs exit right after use and run without sanitizers, so leaks and small overruns go unnoticed.",
     ["include/matrix/", "include/generic/", "include/partition.h", "include/io/input.h", "include/io/blocked.h"],
     [("allocate / release", "include/matrix/*.h"), ("partition_destroy", "include/partition.h"),
      ("destructors of blocks", "include/matrix/blocks.h, coo.1.h, dense.h")],
     ["AddressSanitizer", "bytes in use before and after"])

prop("C21", "The command line programs work on every valid matrix file",
     "For every valid matrix file in either input format, block-size files that add up to its dimensions, wide-row "
     "widths from 1 to 256, and any number of threads, the multiplication programs (csr, csr2, cswr, csbr, csbr2, cgbr, "
     "cgbr2, partition dump), the benchmarks (bench, bin/test/block, and pbench with a permutation of a square matrix) "
     "and the comparison program bin/test/result run to completion with exit status 0. What they report is true: the "
     "dimensions, number of non-zeros, wide rows, blocks for given or chosen block sizes (of the permuted matrix in "
     "pbench, which applies the inverse of the permutation given), the number of threads, and chunks that cover exactly "
     "the non-empty blocks; the times reported are in order (best, median, worst; the mean between best and worst) and "
     "agree with the MFLOP/s, two operations for each non-zero. The comparison program finds no format that differs from CSR beyond "
     "rounding. A matrix file that cannot be read, missing block sizes or permutation, block sizes that do not add up to the "
     "dimensions, and a permutation of another size than the matrix end in a nonzero exit status.",
     ["inputs", "configurations"],
     "all matrix files (.mtx, .bin), block-size files, permutations, thread counts",
     "The tests run bin/test/result and partition on a dozen matrices, none with block-size files, no tiny, empty or "
     "extremely rectangular ones, and no other program.",
     ["src/drivers/blocked.cpp", "src/drivers/csr.cpp", "src/drivers/cswr.cpp", "src/drivers/bench.cpp",
      "src/drivers/pbench.cpp", "src/test/result.cpp", "include/test/bench.h", "include/partition.h", "include/io/input.h",
      "include/utils.h", "src/common.cpp"],
     [("main", "src/drivers/*.cpp, src/test/result.cpp"), ("benchmark_spmv", "include/test/bench.h"),
      ("print_timing_verbose", "src/common.cpp"), ("partition_dump", "include/partition.h")],
     ["exit status and standard output of the programs"])

prop("C22", "Reported matrix statistics agree with the matrix",
     "The information a matrix prints about itself is true: rows, columns, non-zeros, block-rows, block-columns and "
     "number of non-empty blocks, the percentages derived from them, and for generalised block matrices the number of "
     "blocks and non-zeros of each kind, which add up to the totals. The balanced marking printed matches the strategy "
     "used, and where the library chooses it from the matrix (CGBR), it is balanced exactly when no block-row holds more "
     "than twice the mean number of stored values. Listings of small matrices show exactly their entries, each with its "
     "row, column and value.",
     ["inputs"],
     "all matrices, blockings, formats that print information",
     "Tests print these lines but do not check them.",
     ["include/generic/gsb.h", "include/generic/csr.h", "include/matrix/cswr.h", "include/matrix/csbr.h",
      "include/matrix/csbr.2.h", "include/matrix/cgbr.h", "include/matrix/cgbr.2.h"],
     [("print_info", "include/generic/gsb.h, csr.h, include/matrix/*.h"), ("type_block_count / type_nnz_count",
      "include/matrix/cgbr.h, cgbr.2.h"), ("is_balanced", "include/matrix/cgbr.h")],
     ["text printed on standard output"])

prop("C23", "The arithmetic and comparison helpers are exact on their whole domain",
     "For all inputs: the highest set bit and the next power of two are exact for 32- and 64-bit numbers; block sizes "
     "convert to offsets and indices to blocks so that each index lies inside its block; block and row counts of "
     "sorted entries are exact; suffix test and file size are exact; mean, median and standard deviation are the "
     "mathematical ones; the timer measures elapsed time and summaries of times show the best, median, mean and worst; vectors allocated are aligned to 64 "
     "bytes, hold only zeros or numbers from 0 to 1, and are requested in a way every C library grants. Comparing two result vectors reports success exactly when all elements are equal and "
     "otherwise the number and largest size of the differences.",
     ["inputs"],
     "all 32- and 64-bit integers, block size vectors, indices, strings, data vectors of at least one element",
     "Tests reach these helpers only with the values a dozen matrices produce.",
     ["src/common.cpp", "include/common.h", "include/utils.h", "include/test/utils.h"],
     [("highest_bit_set, next_power_of_two, string_ends_with, get_file_size", "src/common.cpp"),
      ("index_to_blockindex, size_to_offset, count_blocks, count_nnz_rows, bit_interleave", "include/utils.h"),
      ("mean, median, standard_deviation, check_results", "include/test/utils.h")],
     ["return values and the printed verdict"])

prop("C24", "Small index types never silently corrupt a matrix",
     "When the small index type chosen for the inside of wide rows or blocks cannot represent every index in there, building the matrix stops the program (by an assertion, as the repository's build has them) instead of wrapping indices around; whenever building succeeds, multiplication is exact. Sizes exactly at the limit of the type (256 for 8 bits, 65536 for 16 bits, half as many if it is signed) work. The number of elements of a dense matrix or block may exceed what the matrix's own index type can count.",
     ["inputs", "configurations"],
     "all matrices, wide-row widths and block sizes around 2^8 and 2^16, small index types of 8 and 16 bits",
     TESTS + "blocks far below the limits of the small index type.",
     ["include/matrix/cswr.h", "include/matrix/block_coo.1.h", "include/matrix/block_csr.h", "include/matrix/blocks.h",
      "include/matrix/coo.1.h"],
     [("asserts on narrowed indices", "include/matrix/cswr.h, block_coo.1.h, block_csr.h, blocks.h, coo.1.h")],
     ["termination of the build", "y after spmv"])

prop("C25", "The bundled MatrixMarket routines read back what they write",
     "The routines of dep/mm_io can be used directly: for every real, complex or pattern matrix given as one-based "
     "coordinates, mm_write_mtx_crd writes a valid MatrixMarket file that holds exactly these entries, and "
     "mm_read_mtx_crd, as well as reading banner, sizes and entries in steps, gives back the same type code, sizes and "
     "entries in order with bit-identical finite values (mm_read_unsymmetric_sparse, for real general files, with "
     "indices from zero). Type codes turn into header text and back, and only valid kinds count as valid. Success is "
     "reported as zero; other kinds, type codes that mean nothing, files that are missing, cut short, malformed or do "
     "not hold the entries they promise, and files that cannot be written completely give a nonzero result, and then, "
     "too, no file stays open and no memory allocated.",
     ["inputs", "fault_sequences"],
     "all coordinate matrices with finite values, all type codes, damaged files, failing writes",
     "No test uses these routines other than to read the banner, the sizes and nothing else.",
     ["dep/mm_io/mm_io.c", "dep/mm_io/mm_io.h"],
     [("mm_write_mtx_crd, mm_write_banner, mm_write_mtx_crd_size, mm_write_mtx_array_size", "dep/mm_io/mm_io.c"),
      ("mm_read_mtx_crd, mm_read_mtx_crd_data, mm_read_mtx_crd_entry, mm_read_unsymmetric_sparse", "dep/mm_io/mm_io.c"),
      ("mm_read_banner, mm_read_mtx_crd_size, mm_read_mtx_array_size, mm_is_valid, mm_typecode_to_str", "dep/mm_io/mm_io.c")],
     ["return values, the arrays returned, the text written, open files and memory in use"])

prop("C26", "Damaged blocked files are refused, never read as a matrix",
     "Reading a blocked file into blocked CSR (either kind) or the generalised block format, with the blocking the "
     "matrix should have, either refuses it - a negative result, or the program stops by itself - or gives a matrix "
     "that holds exactly the entries the header counts, and multiplies accordingly; it never crashes, hangs, touches "
     "memory outside its buffers or allocates memory out of proportion to the file and the blocking. In particular a "
     "missing file, a file cut short anywhere, dimensions, numbers of blocks or of entries in the header that do not agree "
     "with the blocking or with the file, a block number that does not exist or is not the entry's own block, and an "
     "index outside its block are refused. After a negative result no file stays open.",
     ["inputs"],
     "all byte strings as blocked files, all blockings and index types",
     "No test reads a damaged blocked file.",
     ["include/io/blocked.h"],
     [("read_bin_blocked_common, valid_blocked_sizes, valid_next_block", "include/io/blocked.h"),
      ("read_bin_blocked of Csbr, Csbr2 and Cgbr", "include/io/blocked.h")],
     ["result of read_bin_blocked, y after spmv, open files, memory touched and allocated"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")

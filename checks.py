"""What run.py needs to know about each check."""

FLOATS_UINTS = [dict(PVT="float", PIT="uint32_t", TAG="float-u32"), dict(PVT="double", PIT="uint64_t", TAG="double-u64"),
                dict(PVT="double", PIT="uint32_t", TAG="double-u32"), dict(PVT="float", PIT="uint64_t", TAG="float-u64")]

# (build, share of the case count) per worker
# "fuzz" is coverage-guided, the others draw at random
MIX = [("asan", 1)] * 4 + [("opt", 2)] * 2 + [("fuzz", 1)] * 2

EXACT = "values, x and y are chosen so that every sum is exact in the value type; rounding itself is not examined"

CHECKS = {}
NOT_APPLICABLE = {}

PBT = "property-based testing"

CHECKS["C01"] = dict(
    technique=PBT + ": generated matrices against an exact reference product, AddressSanitizer and optimised builds",
    level_note="Sampled inputs only; the reference is a direct sum over the generated entries.",
    src="c01.cpp",
    tus=FLOATS_UINTS + [dict(PVT="int", PIT="uint32_t", TAG="int-u32"), dict(PVT="float", PIT="int", TAG="float-int"),
                       dict(PVT="double", PIT="uint16_t", TAG="double-u16"), dict(PVT="double", PIT="int64_t", TAG="double-i64"),
                       dict(PVT="float", PIT="int16_t", TAG="float-i16"),
                       dict(PVT="int64_t", PIT="uint64_t", TAG="i64-u64")],
    workers=MIX, count=dict(quick=6000, thorough=150000),
    rule="A case is a random coordinate matrix (dimensions 1..70000, 0..6000 entries and now and then up to 262145, in 12 placements and 5 orders, "
         "repetitions allowed), random x and y, types, thread count, one unblocked format and source layout; y after "
         "spmv must equal the exact A*x + y. Non-trivial: A*x changes y. Distinct: different random choices.",
    assumptions=[EXACT, "dimensions up to 70000 (dense: 400), up to 262145 entries"],
)

CHECKS["C02"] = dict(
    technique=PBT + ": generated matrices and blockings against an exact reference product",
    level_note="Sampled inputs only; the reference is a direct sum over the generated entries.",
    src="c02.cpp", tus=FLOATS_UINTS + [dict(PVT="int", PIT="uint32_t", TAG="int-u32"), dict(PVT="float", PIT="int", TAG="float-int"),
                                       dict(PVT="double", PIT="int64_t", TAG="double-i64")],
    workers=MIX, count=dict(quick=1600, thorough=60000),
    rule="A case is a random coordinate matrix (dimensions 1..70000, 0..6000 entries and now and then up to 262145), a random blocking (1 to 70000 "
         "variable groups per dimension, or constant sizes), format, source, marking, thread counts at build and at "
         "multiplication, x and y; y after spmv must equal the exact A*x + y. Non-trivial: more than one block in the "
         "grid. Distinct: different random choices.",
    assumptions=[EXACT, "dimensions up to 70000, up to 262145 entries, up to 70000x70000 blocks in the grid when built from triplets, "
                 "2^20 row pointers in all blocks together"],
)

CHECKS["C03"] = dict(
    technique=PBT + ": generated matrices, blockings and block kinds against an exact reference product",
    level_note="Sampled inputs only; the reference is a direct sum over the generated entries.",
    src="c03.cpp",
    tus=[dict(PVT="float", PIT="uint32_t", PSIT="uint16_t", TAG="float-u32-u16"),
         dict(PVT="double", PIT="uint32_t", PSIT="uint16_t", TAG="double-u32-u16"),
         dict(PVT="float", PIT="uint32_t", PSIT="uint32_t", TAG="float-u32-u32"),
         dict(PVT="double", PIT="uint64_t", PSIT="uint32_t", TAG="double-u64-u32"),
         dict(PVT="float", PIT="uint32_t", PSIT="uint8_t", TAG="float-u32-u8"),
         dict(PVT="double", PIT="uint64_t", PSIT="uint8_t", TAG="double-u64-u8"),
         dict(PVT="float", PIT="uint64_t", PSIT="uint64_t", TAG="float-u64-u64"),
         dict(PVT="float", PIT="uint32_t", PSIT="uint64_t", TAG="float-u32-u64"),
         dict(PVT="double", PIT="int", PSIT="int16_t", TAG="double-int-i16"),
         dict(PVT="int", PIT="uint32_t", PSIT="int8_t", TAG="int-u32-i8"),
         dict(PVT="float", PIT="int64_t", PSIT="int", TAG="float-i64-int")],
    workers=MIX, count=dict(quick=1500, thorough=40000),
    rule="A case is a random coordinate matrix (dimensions 1..70000, 0..4000 entries (now and then up to 262145) plus up to 20000 in densely filled "
         "blocks), a random blocking whose blocks the small index type can hold, format, choice of block kinds (the "
         "library's, one kind for all, or random per block), strategy, thread counts, x and y; y after spmv must equal "
         "the exact A*x + y. Non-trivial: several blocks in the grid and at least one entry.",
    assumptions=[EXACT, "in the first format the default choice takes CSR and dense blocks only when small indices are "
                 "wider than values, so those kinds are exercised there with 64-bit small indices"],
)

CHECKS["C04"] = dict(
    technique=PBT + " with ThreadSanitizer as the oracle for races, plus agreement across thread counts",
    level_note="Races are found on the schedules that ran: ThreadSanitizer reports any two unordered accesses of a run "
               "even if they did not collide, but only for the code paths that run takes.",
    src="c04.cpp",
    tus=[dict(PVT="double", PIT="uint32_t", PSIT="uint16_t", TAG="double-u32-u16"),
         dict(PVT="float", PIT="uint64_t", PSIT="uint64_t", TAG="float-u64-u64")],
    workers=[("tsan", 1)] * 6 + [("opt", 4)] * 2, count=dict(quick=900, thorough=12000), racy=True, min_nontrivial=200,
    rule="A case is one parallel routine (multiplication by a format built there, sort, permutation, expansion), or several threads with matrices and files of their own, on "
         "random data with 2..16 threads, under ThreadSanitizer or optimised; it must report no race and give exactly the "
         "result of the reference and of one thread. Non-trivial: several threads and more data than one thread's share.",
    assumptions=["the OpenMP runtime's own synchronisation is taken as annotated by its archer tool"],
)

CHECKS["C05"] = dict(
    technique=PBT + ": invariants over the chunks of generated blocked matrices",
    level_note="Sampled inputs only; the boundary rule is checked in its weak reading (boundary blocks count on either side).",
    src="c05.cpp",
    tus=[dict(PVT="float", PIT="uint32_t", PSIT="uint16_t", TAG="float-u32-u16"),
         dict(PVT="double", PIT="uint64_t", PSIT="uint32_t", TAG="double-u64-u32"),
         dict(PVT="float", PIT="uint64_t", PSIT="uint64_t", TAG="float-u64-u64"),
         dict(PVT="double", PIT="int", PSIT="int16_t", TAG="double-int-i16")],
    workers=MIX, count=dict(quick=2500, thorough=80000),
    rule="A case is a random matrix and blocking, a format with a partition, and the number of threads (1..200) when it "
         "is built, partitioned anew or partitioned again in place; its chunks are compared with the non-empty blocks the generator put there, the "
         "split rule is checked in both directions, and partition_dump's output is compared. Non-trivial: some block-row "
         "is cut.",
    assumptions=["the stored values of a block are those the block reports (dense blocks may report all their elements)"],
)

CHECKS["C07"] = dict(
    technique=PBT + ": generated arrays against a sequential stable sort, with injected allocation failure",
    level_note="Sampled inputs and the schedules that ran.",
    src="c07.cpp", extra_src=["../lib/alloc_fail.cpp"],
    tus=[dict(PVT="float", PIT="uint32_t", TAG="float-u32"), dict(PVT="double", PIT="uint64_t", TAG="double-u64"),
         dict(PVT="double", PIT="int", TAG="double-int"), dict(PVT="double", PIT="uint16_t", TAG="double-u16"),
         dict(PVT="float", PIT="int16_t", TAG="float-i16"), dict(PVT="double", PIT="int64_t", TAG="double-i64"),
         dict(PVT="float", PIT="uint8_t", TAG="float-u8")],
    workers=MIX, count=dict(quick=4000, thorough=120000),
    rule="A case is an array of 0..40000 (now and then 200000) entries (9 key distributions with many equal keys, sizes around the sequential "
         "cut-offs), one sorting routine, 1..24 threads, called inside or outside a parallel region, with or without "
         "failing buffer allocation; the result must be the one of a sequential stable sort (by blocking: grouped, and a "
         "permutation). Non-trivial: at least two entries.",
    assumptions=["Morton order: indices below 65536 and of at most half the bits of the index type (the routine documents the restriction)"],
)

CHECKS["C06"] = dict(
    technique="stateful " + PBT + ": generated histories over several matrices against a model of their entries",
    level_note="Sampled histories of up to 30 steps over at most 4 sources and 6 matrices.",
    src="c06.cpp",
    tus=[dict(PVT="float", PIT="uint32_t", PSIT="uint16_t", TAG="float-u32-u16"),
         dict(PVT="double", PIT="uint64_t", PSIT="uint32_t", TAG="double-u64-u32"),
         dict(PVT="float", PIT="uint32_t", PSIT="uint64_t", TAG="float-u32-u64"),
         dict(PVT="double", PIT="int", PSIT="int16_t", TAG="double-int-i16")],
    workers=MIX, count=dict(quick=2200, thorough=60000),
    rule="A case is a history of 2..30 steps (new source, build one of 13 formats, copy to another layout, change or "
         "release a source, multiply or release a matrix, change the number of threads); entries of the sources and the "
         "products and entry counts of the matrices are compared with the model throughout and at the end. Non-trivial: "
         "at least two different formats were built.",
    assumptions=[EXACT, "dimensions up to 2000, up to 3000 entries"],
)

CHECKS["C20"] = dict(
    technique="stateful " + PBT + " under AddressSanitizer and Valgrind, with bytes in use before and after as the leak oracle",
    level_note="Sampled histories of up to 26 steps; Valgrind (uninitialised values) sees a small share of them.",
    src="c20.cpp",
    tus=[dict(PVT="float", PIT="uint32_t", PSIT="uint16_t", TAG="float-u32-u16"),
         dict(PVT="double", PIT="uint64_t", PSIT="uint32_t", TAG="double-u64-u32"),
         dict(PVT="float", PIT="uint32_t", PSIT="uint64_t", TAG="float-u32-u64"),
         dict(PVT="double", PIT="int", PSIT="int16_t", TAG="double-int-i16")],
    workers=[("asan", 1)] * 4 + [("fuzz", 1)] * 2 + [("vg", 0.06)] * 2, count=dict(quick=1500, thorough=40000),
    rule="A case is a history of 2..26 steps as in C06 plus writing and reading every file type and printing; "
         "AddressSanitizer and Valgrind must report nothing and, once everything is released, repetitions of the history "
         "must not leave a constant amount of memory in use. Non-trivial: at least two different formats were built.",
    assumptions=["matrices that could not be read are not released: what they own is undefined",
                 "a leak is reported when three repetitions of a history leave the same positive number of bytes in use"],
)

CHECKS["C08"] = dict(
    technique=PBT + ": generated MatrixMarket texts against the meaning the generator gave them",
    level_note="Sampled inputs only.",
    src="c08.cpp", tus=FLOATS_UINTS + [dict(PVT="int", PIT="uint32_t", TAG="int-u32"), dict(PVT="double", PIT="int", TAG="double-int"),
                                       dict(PVT="float", PIT="uint16_t", TAG="float-u16"), dict(PVT="double", PIT="int64_t", TAG="double-i64"),
                                       dict(PVT="double", PIT="uint8_t", TAG="double-u8")],
    workers=MIX, count=dict(quick=25000, thorough=600000),
    rule="A case is a well-formed MatrixMarket text (all kinds, random letter case, comments up to the line limit, white "
         "space, line ends, eleven ways of writing numbers, dimensions up to 2^63-2, 0..5000 lines, repetitions), a "
         "coordinate layout and types; the matrix read must be the one written down, or the kind refused. One case in "
         "eight varies the file's name instead. Non-trivial: has entries, or must be refused.",
    assumptions=["lines up to the 1024 characters of the format; entries of symmetric files in the lower triangle",
                 "where mirrored entries go among the others is not specified; values fit the value type"],
)

IO_TYPES = FLOATS_UINTS + [dict(PVT="int", PIT="uint32_t", TAG="int-u32"), dict(PVT="double", PIT="int", TAG="double-int"),
                           dict(PVT="float", PIT="uint16_t", TAG="float-u16"), dict(PVT="double", PIT="int64_t", TAG="double-i64"),
                           dict(PVT="int", PIT="int16_t", TAG="int-i16"), dict(PVT="double", PIT="uint8_t", TAG="double-u8")]

CHECKS["C09"] = dict(
    technique=PBT + ": round trip of generated matrices, with an independent parser of the file",
    level_note="Sampled inputs only.",
    src="c09.cpp", tus=IO_TYPES,
    workers=MIX, count=dict(quick=9000, thorough=300000),
    rule="A case is a matrix (dimensions 1..2^63-2, 0..4000 entries, values from all parts of the type's finite range), two "
         "layouts, types and a file name (absent, or an existing longer file); the file as parsed by the harness and the "
         "matrices read back with the same and another index width must have the same dimensions and entries in order, "
         "values bit for bit. Non-trivial: at least one entry.",
    assumptions=["dimensions up to 2^63-2; finite values"],
)

CHECKS["C10"] = dict(
    technique=PBT + ": bytes against the documented layout, round trip, and CSR read directly against CSR built in memory",
    level_note="Sampled inputs only.",
    src="c10.cpp", tus=IO_TYPES,
    workers=MIX, count=dict(quick=12000, thorough=400000),
    rule="A case is a matrix (any dimensions the index type can count, 70000 for CSR; 0..5000 entries; values of any bit "
         "pattern), written by the library in one of two layouts or by the harness from the documented layout, and read "
         "into a coordinate layout or, when sorted by row, into a CSR layout. Non-trivial: at least one entry.",
)

CHECKS["C11"] = dict(
    technique=PBT + ": bytes of the files against the raw arrays, and round trip",
    level_note="Sampled inputs only.",
    src="c11.cpp", tus=IO_TYPES,
    workers=MIX, count=dict(quick=14000, thorough=450000),
    rule="A case is a matrix (indices up to the largest the index type can count past, 0..5000 entries, values of any bit "
         "pattern) written as three files by the library or the harness and read into one of three layouts, or an array "
         "of one of eight element types (sizes around buffer sizes). Non-trivial: at least one entry or element.",
    assumptions=["every index is below the largest value of the index type, since the dimensions must fit it"],
)

BLOCK_TYPES = [dict(PVT="float", PIT="uint32_t", PSIT="uint16_t", TAG="float-u32-u16"),
               dict(PVT="double", PIT="uint64_t", PSIT="uint32_t", TAG="double-u64-u32"),
               dict(PVT="double", PIT="uint32_t", PSIT="uint8_t", TAG="double-u32-u8"),
               dict(PVT="float", PIT="uint32_t", PSIT="uint64_t", TAG="float-u32-u64"),
               dict(PVT="int", PIT="uint64_t", PSIT="uint16_t", TAG="int-u64-u16"),
               dict(PVT="double", PIT="int", PSIT="int16_t", TAG="double-int-i16"),
               dict(PVT="float", PIT="int64_t", PSIT="int8_t", TAG="float-i64-i8")]

CHECKS["C12"] = dict(
    technique=PBT + ": differential against the same format built in memory, exact reference product, bytes against the documented layout",
    level_note="Sampled inputs only.",
    src="c12.cpp", tus=BLOCK_TYPES,
    workers=MIX, count=dict(quick=900, thorough=30000),
    rule="A case is a matrix (dimensions 1..70000, 0..3000 entries and dense blocks), a blocking with variable sizes, types, "
         "threads and one of the three formats; the file is written by the library (and compared with the documented "
         "layout) or by the harness, and the matrix read must multiply exactly and agree with one built in memory in "
         "counts, kinds of blocks and printed information. Non-trivial: more than one non-empty block.",
    assumptions=[EXACT, "the file is sorted by block, row and column; the blocking given to the reader is the file's"],
)

CHECKS["C13"] = dict(
    technique="structure-aware fuzzing (" + PBT + " over damaged files) under AddressSanitizer, with an independent reading of the file as oracle",
    level_note="Sampled damage only.",
    src="c13.cpp", asan=":hard_rss_limit_mb=0",     # the watcher of the limit opens files now and then
    tus=IO_TYPES[:-1],
    workers=MIX, count=dict(quick=15000, thorough=500000),
    rule="A case is a valid file (or three) with one kind of damage: a cut, a changed header or size, malformed, missing or "
         "out-of-range numbers, random edits, disagreeing lengths, or no file at all. Files that certainly are no matrix must "
         "be refused; what is accepted must lie inside its dimensions and be what an independent reading of the same bytes "
         "finds; memory requested must stay below 64 times the file plus 64 KiB. Non-trivial: every case.",
    assumptions=["what a refused matrix holds is undefined and is not released"],
)

CHECKS["C26"] = dict(
    technique="structure-aware fuzzing (" + PBT + " over damaged blocked files) under AddressSanitizer, with an independent reading of the file as oracle",
    level_note="Sampled damage only.",
    src="c26.cpp", asan=":hard_rss_limit_mb=0",     # the watcher of the limit opens files now and then
    tus=BLOCK_TYPES,
    workers=[("asan", 1)] * 6 + [("opt", 1)] * 2, count=dict(quick=6000, thorough=150000),
    rule="A case is a valid blocked file (dimensions 1..400, 0..1200 entries and a dense block now and then) with one kind of "
         "damage: a cut, a changed size in the header, bytes behind the end, a changed block number or index, entries that "
         "changed places, random edits, or no file; it is read in a child process by one of the three readers. Files that "
         "certainly are no matrix with these blocks must be refused (a negative result, or the program stops by itself); "
         "what is accepted must be what an independent reading finds, with an exact product. Non-trivial: every case.",
    assumptions=[EXACT, "what a refused matrix holds is undefined and is not released"],
)

CHECKS["C14"] = dict(
    technique="fault injection (" + PBT + "): file size limits at generated offsets, full devices, uncreatable files",
    level_note="Sampled faults only; what is lost after fclose (power failure) is out of reach.",
    src="c14.cpp", tus=IO_TYPES, asan=":hard_rss_limit_mb=0",     # the watcher of the limit opens files now and then
    workers=MIX, count=dict(quick=9000, thorough=300000),
    rule="A case is one write routine with a matrix or array, written once undisturbed and once with a fault: files limited "
         "to a generated number of bytes, /dev/full, a name that cannot be created, no more file descriptors; zero must be "
         "returned exactly when the files are complete, and no file may stay open. Non-trivial: the fault takes effect.",
)

CHECKS["C15"] = dict(
    technique=PBT + ": algebraic laws (inverse, involution, composition) and a direct reference, product of the permuted matrix",
    level_note="Sampled inputs only.",
    src="c15.cpp", tus=FLOATS_UINTS + [dict(PVT="int", PIT="uint32_t", TAG="int-u32"), dict(PVT="double", PIT="int", TAG="double-int"),
                                       dict(PVT="float", PIT="uint16_t", TAG="float-u16"), dict(PVT="float", PIT="uint8_t", TAG="float-u8")],
    workers=MIX + [("tsan", 0.1)], count=dict(quick=9000, thorough=300000),
    rule="A case is a permutation (0..300000 elements, 8 kinds) with its inverse and an array of indices of another length, or "
         "a square matrix in one of two layouts permuted and multiplied; arrays after each call must be those of the direct "
         "definition, the laws must hold, and the product must be the permuted product. Non-trivial: at least two elements "
         "and one index or entry.",
    assumptions=[EXACT, "a permutation covers all indices it is applied to; matrices are square"],
)

CHECKS["C16"] = dict(
    technique=PBT + ": generated block sizes and indices against a direct definition of the expansion",
    level_note="Sampled inputs only.",
    src="c16.cpp", tus=FLOATS_UINTS + [dict(PVT="int", PIT="uint32_t", TAG="int-u32"), dict(PVT="double", PIT="int", TAG="double-int"),
                                       dict(PVT="float", PIT="uint16_t", TAG="float-u16"), dict(PVT="float", PIT="uint8_t", TAG="float-u8")],
    workers=MIX, count=dict(quick=8000, thorough=250000),
    rule="A case is a vector of 1..3000 block sizes (from 0 to 2^28, or 2^60 with 64-bit indices, seven distributions around powers of two) and up to 3000 "
         "indices or matrix entries (spread, at the borders of blocks, last), some of them outside the range the call is given; "
         "everything must be as defined directly, the rest unchanged. Non-trivial: more than one block and one index.",
    assumptions=["the expanded index space fits the index type; rows and columns of matrices share the blocks, as the routine requires"],
)

CHECKS["C17"] = dict(
    technique=PBT + ": generated shapes against the stated invariants, and building and multiplying with the size picked",
    level_note="Sampled inputs only.",
    src="c17.cpp", tus=FLOATS_UINTS + [dict(PVT="int", PIT="uint32_t", TAG="int-u32"), dict(PVT="float", PIT="int", TAG="float-int"), dict(PVT="double", PIT="int64_t", TAG="double-i64"),
                                       dict(PVT="float", PIT="uint16_t", TAG="float-u16", NOBUILD="1"),
                                       dict(PVT="double", PIT="int16_t", TAG="double-i16", NOBUILD="1")],
    workers=MIX, count=dict(quick=4000, thorough=150000),
    rule="A case is 20 shapes (1 to the largest number of the index type, around powers of two), value sizes of 1..32 bytes and "
         "1..4096 workers, or a matrix of up to 200000 rows or columns built in a blocked format with the size picked and "
         "multiplied. Non-trivial: a shape the routine splits, or a matrix with entries and more than one block.",
    assumptions=[EXACT, "dimensions up to 2^48", "matrices whose row pointers in all blocks would exceed 2^21 are not built"],
)

CHECKS["C23"] = dict(
    technique=PBT + ": generated arguments against direct definitions",
    level_note="Sampled inputs only.",
    src="c23.cpp", tus=FLOATS_UINTS + [dict(PVT="double", PIT="int", TAG="double-int"), dict(PVT="float", PIT="int", TAG="float-int")],
    workers=MIX, count=dict(quick=20000, thorough=800000),
    rule="A case exercises one family of helpers: bits and powers of two (50 numbers), block offsets and counts (up to 200 blocks and "
         "300 entries), suffixes and file sizes (0 to 2^35, sparse), statistics (1..1000 values), comparison of vectors (0..2000 "
         "elements), or vectors and summaries of times. Non-trivial: more than one element, or differences to report.",
    assumptions=["highest bit of a positive number, next power of two up to 2^63, interleaving of 16 bits, as documented",
                 "statistics within rounding; the median time of an even number may be either middle one"],
)

CHECKS["C22"] = dict(
    technique=PBT + ": text printed for generated matrices against counts made from the entries",
    level_note="Sampled inputs only.",
    src="c22.cpp", tus=BLOCK_TYPES,
    workers=MIX, count=dict(quick=2500, thorough=90000),
    rule="A case is a matrix in one format (blocked: 1..70000 rows, 0..4000 entries and dense blocks, any blocking, also with "
         "block-rows at the limit of a balanced matrix) and the text it prints; each number must be the one counted from the "
         "entries, the kinds of blocks those of the blocks stored. Non-trivial: at least one entry, or two blocks.",
    assumptions=["where it depends on whether zeros of dense blocks count if a matrix is balanced, either answer is accepted",
                 "listings follow the library's layout of lines, not its white space"],
)

CHECKS["C24"] = dict(
    technique=PBT + " around the limits of the index types; every case runs in a child process that either multiplies exactly or is stopped by an assertion",
    level_note="Sampled inputs only; relies on assertions being compiled in, as the repository's build does.",
    src="c24.cpp",
    tus=[dict(PVT="float", PIT="uint32_t", PSIT="uint8_t", TAG="float-u32-u8"),
         dict(PVT="double", PIT="uint32_t", PSIT="uint16_t", TAG="double-u32-u16"),
         dict(PVT="float", PIT="uint64_t", PSIT="uint8_t", TAG="float-u64-u8"),
         dict(PVT="float", PIT="uint64_t", PSIT="uint16_t", TAG="float-u64-u16"),
         dict(PVT="double", PIT="uint16_t", PSIT="uint8_t", TAG="double-u16-u8", NO_CGBR="1"),
         dict(PVT="float", PIT="uint16_t", PSIT="uint16_t", TAG="float-u16-u16", NO_CGBR="1"),
         dict(PVT="double", PIT="int", PSIT="int16_t", TAG="double-int-i16"),
         dict(PVT="float", PIT="uint32_t", PSIT="int8_t", TAG="float-u32-i8"),
         dict(PVT="double", PIT="int16_t", PSIT="int8_t", TAG="double-i16-i8", NO_CGBR="1")],
    workers=MIX, count=dict(quick=500, thorough=20000),
    rule="A case is a matrix and a format (wide rows, both generalised block formats with default or chosen block kinds, and "
         "each kind of block on its own) whose wide rows, blocks or elements are at, just below or just above what the small "
         "index type can count, with entries at the ends of blocks. The product must be exact or an assertion must stop the "
         "program, and the latter only if something is too large. Non-trivial: entries, and a size at least two below the limit.",
    assumptions=[EXACT],
)

# ------------------------------------------------------------------ whole programs

PLAIN = ["-g", "-w", "-fopenmp"]
ASANF = ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
INC = ["-I{REPO}/include", "-I{REPO}/dep"]
REST = ["{REPO}/src/common.cpp", "-x", "c", "{REPO}/dep/mm_io/mm_io.c"]


def tool(src, defs=(), opt=()):
    """Commands that build a program, as the Makefile does and with AddressSanitizer"""
    if src.endswith(".c"):
        cmd = ["clang-18", "-g", "-w", "-fopenmp"] + INC + ["{REPO}/" + src]
    else:
        cmd = ["clang++-18"] + PLAIN + list(opt) + INC + list(defs) + ["{REPO}/" + src] + REST
    return cmd, cmd[:1] + ASANF + [a for a in cmd[1:] if not a.startswith("-O")]


def programs(d):
    out = {}
    for name, (plain, asan) in d.items():
        out[name + ".plain"], out[name + ".asan"] = plain, asan
    return out


PY_ENV = {"ASAN_OPTIONS": "exitcode=99:detect_leaks=0:max_allocation_size_mb=3000:allocator_may_return_null=0:malloc_fill_byte=173"}

CHECKS["C18"] = dict(
    technique=PBT + " driving the programs themselves: generated files against an independent model of each transformation, with missing, impossible and unwritable files",
    level_note="Sampled inputs only.",
    src="c18.py", tus=[], env=PY_ENV,
    programs=programs({
        "permute": tool("src/tools/permute.cpp"), "ipermute": tool("src/tools/permute.cpp", ["-DINVPERM"]),
        "one2zero": tool("src/tools/one2zero.c"), "double2float": tool("src/tools/double2float.c"), "pprint": tool("src/tools/pprint.c")}),
    workers=[("py", 1)] * 8, count=dict(quick=2000, thorough=70000),
    rule="A case is one run of permute, ipermute, one2zero, double2float or pprint (built as in the Makefile or with "
         "AddressSanitizer) on files of 0..60000 generated indices or values of any bit pattern, under odd file names, with "
         "older outputs in the way, or with a missing, impossible or unwritable file. The outputs must be byte for byte what "
         "the model says, inputs unchanged, and the exit status zero exactly when there is no fault. Non-trivial: at least one index or value, or a fault.",
    assumptions=["files whose size is a whole number of elements"],
)

CHECKS["C19"] = dict(
    technique=PBT + " driving the programs themselves: generated matrices, block sizes and permutations against an independent model and parser of every output, with missing, damaged, impossible and unwritable files and concurrent runs",
    level_note="Sampled inputs only.",
    src="c19.py", tus=[], env=PY_ENV,
    programs=dict(programs({
        "convert": tool("src/tools/convert.cpp"), "sort": tool("src/tools/sort.cpp"), "convert_blocked": tool("src/tools/convert_blocked.cpp"),
        "expanded": tool("src/tools/expanded.cpp"), "prepare": tool("src/tools/prepare.cpp", opt=["-O2"])}),
        **{"reader.asan": ["clang++-18"] + ASANF + PLAIN + INC + ["{HERE}/harness/reader.cpp"] + REST}),
    workers=[("py", 1)] * 8, count=dict(quick=1000, thorough=25000),
    rule="A case is one run of convert, sort, convert_blocked, expanded or prepare (or up to three of prepare at once), built "
         "as in the Makefile or with AddressSanitizer, on a generated matrix (dimensions up to 2^32-2 where the tool allows, "
         "0..5000 entries, values of any bit pattern, MatrixMarket files of every kind), block sizes, permutation and option, "
         "or with one fault. The outputs, parsed from the documented layouts, must hold the entries bit for bit in the "
         "documented order with the documented dimensions, now and then the library's readers must read the same, and the "
         "exit status is zero exactly when there is no fault. Non-trivial: at least one entry, or a fault.",
    assumptions=["block sizes that are positive; values are finite in MatrixMarket files", "the order of entries at the same position, or inside a block for sort, is not specified"],
)

FAST = ["-O3", "-fno-rtti", "-fno-exceptions", "-funroll-loops"]


def driver(src, matrix=None, defs=()):
    d = (["-DMATRIXTYPE=" + matrix] if matrix else []) + ["-DVALTYPE=float", "-DITYPE=uint32_t", "-DITERATIONS=3"] + list(defs)
    return tool(src, d, FAST)


CHECKS["C21"] = dict(
    technique=PBT + " driving the programs themselves: generated matrix files, block sizes, permutations and thread counts against an independent model of everything the programs report, with unreadable files and sizes that do not fit",
    level_note="Sampled inputs only.",
    src="c21.py", tus=[], env=PY_ENV,
    programs=programs({
        "csr": driver("src/drivers/csr.cpp", "Csr<float,uint32_t>"), "csr2": driver("src/drivers/csr.cpp", "Csr2<float,uint32_t>"),
        "cswr": driver("src/drivers/cswr.cpp", "Cswr<float,uint32_t,uint8_t>"),
        "csbr": driver("src/drivers/blocked.cpp", "Csbr<float,uint32_t>"), "csbr2": driver("src/drivers/blocked.cpp", "Csbr2<float,uint32_t>"),
        "cgbr": driver("src/drivers/blocked.cpp", "Cgbr<float,uint32_t,uint16_t>"), "cgbr2": driver("src/drivers/blocked.cpp", "Cgbr2<float,uint32_t,uint16_t>"),
        "partition": driver("src/drivers/blocked.cpp", "Cgbr<float,uint32_t,uint16_t>", ["-DPARTITION_DEBUG", "-DSITYPE=uint16_t"]),
        "bench": driver("src/drivers/bench.cpp", None, ["-DINDEXTYPE=uint32_t", "-DSINDEXTYPE=uint16_t"]),
        "pbench": driver("src/drivers/pbench.cpp", None, ["-DINDEXTYPE=uint32_t", "-DSINDEXTYPE=uint16_t"]),
        "result": tool("src/test/result.cpp", [], FAST),
        "block": tool("src/test/block.cpp", ["-DITERATIONS=3"], FAST)}),
    workers=[("py", 1)] * 8, count=dict(quick=900, thorough=15000),
    rule="A case is one run of csr, csr2, cswr, csbr, csbr2, cgbr, cgbr2, partition, bench, pbench, bin/test/result or "
         "bin/test/block, built as in the Makefile (with fewer iterations) or with AddressSanitizer, with 1 to 13 threads, on a "
         "generated .mtx or .bin file (1x1 to 300000x300000, 0..5000 entries of any value), generated block sizes or "
         "permutation, or with one fault. Everything reported is compared with a model, the formats that bin/test/result "
         "compares may differ by no more than rounding, and the exit status is zero exactly when there is no fault. "
         "Non-trivial: at least one entry, or a fault.",
    assumptions=["bin/test/result reads result vectors it has not cleared, so that it runs with memory that is zero when allocated", "block sizes are positive"],
)

CHECKS["C25"] = dict(
    technique=PBT + ": round trip of generated matrices through the bundled MatrixMarket routines with an independent parser, damaged files and failing writes",
    level_note="Sampled inputs only.",
    src="c25.cpp", tus=[{}], asan=":hard_rss_limit_mb=0",
    workers=MIX, count=dict(quick=12000, thorough=600000),
    rule="A case uses the routines of dep/mm_io directly: a matrix of one of the nine kinds with values (sizes 1..2^31-1, 0..2000 "
         "entries, any finite values) written, parsed by the harness, and read at once, in one step after the header, entry by "
         "entry, and from one to zero based; or a type code (known or not) turned into a header and back with sizes; or a write to "
         "a file that becomes full or cannot be created; or a file cut short, with a word for a number, a wrong number of entries "
         "or another header, which must be refused. No file stays open and no memory allocated. Non-trivial: there are entries, or "
         "a type code is examined.",
)

"""The checks: which harness entries decide which property, within which bounds.

A job is one entry function of the harness with concrete parameters; the
engine explores every path of it, with every input byte symbolic.  Jobs
without a tier run in both tiers; q() jobs only in the quick one, t() jobs only
in the thorough one.
"""

COMMON_ASSUMPTIONS = [
    "the code checked is what rustc stable emits for x86-64 at opt-level 1 with debug assertions and overflow checks, "
    "panics aborting; paths explored are cross-checked by replaying their models on a natively compiled build",
    "the symbolic executor's semantics of LLVM IR (validated by those replays: every replayed model must produce the "
    "same observations natively, or the check fails)",
    "allocation never fails (single allocations above the stated limit are violations); std's HashMap keys are fixed",
    "formatting (core::fmt::write) is a stub that succeeds and writes nothing, except in C20 and C22",
]

NSHAPES = 38
SHAPES = range(NSHAPES)


def J(entry, *params, **kw):
    d = dict(entry=entry, params=list(params))
    d.update(kw)
    return d


def q(jobs):
    return [dict(j, tier="quick") for j in jobs]


def t(jobs):
    return [dict(j, tier="thorough") for j in jobs]


VARLEN_IN = (0, 1, 5, 18, 19, 20)
REJECT = {1: "finished messages", 2: "rejected calls"}

# kinds of long values (harness/src/long.rs): seq, array, str, bytes, tuple,
# list, struct, enum, nesting, far recursion, mixed, names; with sizes
LONGS = ((0, 300), (1, 300), (2, 300), (3, 300), (4, 300), (5, 65), (6, 257), (7, 257), (8, 129), (9, 129), (10, 40),
         (11, 300))

C08IO = (0, 1, 4, 6, 10, 13, 16, 18, 21, 30)
LONGS18 = ((0, 40), (1, 300), (4, 65), (5, 40), (6, 65), (8, 70), (9, 65), (10, 12), (7, 257), (11, 40))
LONGS20 = ((0, 70), (1, 65), (2, 300), (3, 300), (4, 65), (5, 34), (6, 65), (7, 257), (8, 65), (9, 33), (10, 12),
           (11, 300))
XLONGS = ((0, 65540), (1, 65540), (4, 65540), (5, 1030), (6, 65540), (8, 1030), (9, 1030), (11, 70000))
XOPTS = dict(max_depth=8000, max_steps=400_000_000)
GIANTS = ((0, 65540), (1, 32780), (2, 32780), (3, 65540), (4, 65540), (5, 65540), (6, 65540), (7, 65540), (8, 32780))
PARTS = ((0, 0), (1, 0), (2, 256), (2, 257), (2, 512), (2, 65536), (3, 256), (3, 257), (3, 512), (3, 65536))
MLONGS = ((0, 4100), (4, 1030), (6, 1030))
DLONGS = ((5, 1030), (8, 1030), (9, 1030))
LONGS22 = ((1, 300), (4, 101), (6, 101), (7, 65), (8, 40), (9, 40), (11, 70))

# large values of Rust types (harness/src/typed.rs): type, size
BRAIDS = ((0, 14), (1, 18), (2, 15), (3, 11), (4, 16), (5, 15), (6, 17), (7, 14))
BIG14 = ((0, 300), (1, 129), (2, 300), (3, 300), (4, 300), (5, 65), (6, 70), (7, 65), (8, 65), (9, 256), (10, 65),
         (11, 129), (12, 256), (13, 129), (14, 129), (15, 127), (15, 300), (15, 70000), (16, 127), (16, 300), (17, 0),
         (18, 100), (19, 257), (19, 40), (20, 60), (21, 40), (22, 129), (23, 300))
BIG15 = ((0, 300), (1, 300), (2, 300), (3, 300), (4, 65), (5, 65), (6, 256), (7, 65), (8, 129), (9, 256), (10, 129),
         (11, 129), (12, 300), (12, 70000), (13, 0), (14, 0), (15, 0), (16, 0))
BIG16 = ((0, 100), (1, 257), (1, 40), (2, 30), (3, 60), (4, 40), (5, 129), (6, 60), (7, 30), (8, 20), (9, 70),
         (10, 65), (11, 65), (12, 300), (13, 65))

CHECKS = {
    "C01": dict(
        bounds="every u32, u64 and u128 value; every sequence length (usize); every input of 0, 1, 5, 18, 19 and 20 "
        "bytes (thorough: 0 to 24), i.e. every way an integer can start, continue, end, overflow or be cut off",
        outside="inputs longer than the bound (an encoded integer is at most 19 bytes long, so they differ only in "
        "bytes that must stay unread, or in further continuation bytes past the point of rejection)",
        covers={1: "accepted", 2: "truncated", 3: "malformed", 4: "length beyond usize"},
        jobs=[J("c01_enc", k) for k in range(3)] + [J("c01_len_enc")]
        + q([J("c01_dec", k, n) for k in range(3) for n in VARLEN_IN] + [J("c01_len_dec", n) for n in (0, 1, 10, 19, 20)])
        + t([J("c01_dec", k, n) for k in range(3) for n in range(25)] + [J("c01_len_dec", n) for n in range(25)]),
    ),
    "C02": dict(
        bounds="every i32, i64 and i128 value; every input of 0, 1, 5, 18, 19 and 20 bytes (thorough: 0 to 24)",
        outside="inputs longer than the bound (an encoded integer is at most 19 bytes long)",
        covers={1: "accepted", 2: "truncated", 3: "malformed"},
        jobs=[J("c02_enc", k) for k in range(3)]
        + q([J("c02_dec", k, n) for k in range(3) for n in VARLEN_IN])
        + t([J("c02_dec", k, n) for k in range(3) for n in range(25)]),
    ),
    "C03": dict(
        bounds="enums of 0-3, 17, 255-258 and 65535-65537 variants; every ordinal (usize) for the small ones, windows "
        "around the ends for the large ones; every input of 0 to 3 bytes; every ordinal/one-letter-name pair for 2 "
        "and 5 (thorough: 26) variants",
        outside="variant counts between those (the width of the ordinal changes at 1/2, 256/257 and 65536/65537, all "
        "covered); enums of more than 2^24 variants",
        covers={1: "accepted ordinal", 2: "rejected ordinal", 3: "decoded ordinal", 4: "truncated", 5: "out of range"},
        jobs=[J("c03_enc", n, 0, 0) for n in (0, 1, 2, 3, 17)]
        + [J("c03_enc", n, b, 4) for n in (255, 256, 257) for b in (0, 126, 253)]
        + [J("c03_enc", n, b, 4) for n in (65535, 65536, 65537) for b in (254, 65533)]
        + [J("c03_dec", n, l) for n in (0, 1, 2, 3, 17, 255, 256, 257, 258) for l in (0, 1, 2)]
        + [J("c03_dec", n, l) for n in (65535, 65536, 65537) for l in (2, 3)]
        + [J("c03_name", n) for n in (2, 5)]
        + t([J("c03_enc", n, 0, 0) for n in (4, 8, 64, 128, 129, 254, 255, 256, 257, 258)]
            + [J("c03_enc", n, b, 6) for n in (300, 1000, 65534) for b in (0, 250, n - 3)]
            + [J("c03_dec", n, l) for n in (4, 127, 128, 129, 512, 4096) for l in (0, 1, 2, 3)]
            + [J("c03_name", n) for n in (1, 3, 26)]),
    ),
    "C04": dict(
        bounds="every value of u8, i8, u16, i16, f32, f64 (bit patterns), char and bool; every input of 0, 1, 2, 4, 8 "
        "and 19 bytes (thorough: 0 to 20); unit",
        outside="nothing: these scalars are at most 8 bytes (char: 19 as a var-len integer) long",
        covers={1: "accepted", 2: "truncated", 3: "malformed"},
        jobs=[J("c04_enc", k) for k in range(8)] + [J("c04_unit")]
        + q([J("c04_dec", k, n) for k in range(8) for n in (0, 1, 2, 4, 8, 19)])
        + t([J("c04_dec", k, n) for k in range(8) for n in range(21)]),
    ),
    "C05": dict(
        bounds="every byte string of 0, 1, 2, 127, 128 and 300 bytes, every str of 0 to 4 bytes (thorough: 5) and "
        "every ASCII str of 127 and 128; every input of 0 to 7 (bytes) and 0 to 4 (str; thorough 6) bytes, every "
        "content of 1 to 4 (thorough: 6) bytes behind a well-formed length; strings of 255, 256, 16383, 16384 and "
        "70000 bytes with a few unconstrained ones",
        outside="longer strs with non-ASCII content (UTF-8 validation is std's); lengths of 2^14 and more (see C12)",
        covers={1: "accepted", 2: "truncated", 3: "malformed"},
        jobs=[J("c05_enc", 0, n, 0) for n in (0, 1, 2, 127, 128, 300)]
        + [J("c05_enc", 1, n, 0) for n in (0, 1, 2, 3, 4)]
        + [J("c05_enc", 1, n, 1) for n in (127, 128)]
        + [J("c05_dec", 0, n) for n in (0, 1, 2, 4, 7)]
        + [J("c05_dec", 1, n) for n in (0, 1, 2, 3, 4)]
        + [J("c05_utf8", n) for n in (1, 2, 3, 4)]
        + [J("c05_long", k, n) for k in (0, 1) for n in (255, 256, 16383, 16384, 70000)]
        + [J("c05_long", k, 1100000, opts=XOPTS) for k in (0, 1)]
        + t([J("c05_enc", 1, 5, 0)] + [J("c05_dec", 1, n) for n in (5, 6)] + [J("c05_utf8", n) for n in (5, 6)]
            + [J("c05_enc", 0, n, 0) for n in (16383, 16384)]),
    ),
    "C06": dict(
        bounds={
            "quick": "38 schema shapes (every constructor, nested in one another, empty and single-element composites, "
            "duplicate and prefix names, recursion to parent, ancestor and root); up to 12 conforming calls, and up "
            "to 6 calls one of which is any call whatsoever, at any point; every scalar argument, strs and bytes of "
            "up to 2, sequences of up to 2 elements; large values of 40 to 4100 parts or levels with any call at a few "
            "places, and of 32780 to 65540 parts or levels; sequences of any claimed and fixed length (all of u64) and "
            "tuples and structs of 256 to 65536 parts, ended after the wrong number of parts",
            "thorough": "38 schema shapes; up to 16 conforming calls, and up to 7 (5 with two arbitrary calls)",
        },
        outside="longer traversals, other schemas",
        covers={1: "finished messages", 2: "rejected calls"},
        jobs=[J("c06_enc", s, 12, 0) for s in SHAPES] + [J("c06_enc", s, 6, 1) for s in SHAPES]
        + [J("c06_long", k, n, i, opts=XOPTS) for k, n in MLONGS for i in (0, 1)]
        + [J("c06_long", k, n, i) for k, n in LONGS for i in (0, 1)]
        + [J("c06_giant", k, n, opts=XOPTS) for k, n in GIANTS]
        + [J("c06_parts", k, n, opts=XOPTS) for k, n in PARTS]
        + t([J("c06_enc", s, 16, 0) for s in SHAPES] + [J("c06_enc", s, 7, 1) for s in SHAPES]
            + [J("c06_enc", s, 5, 2) for s in SHAPES]),
    ),
    "C07": dict(
        bounds={
            "quick": "38 schema shapes; every input of 4 bytes with up to 12 conforming calls; every input of 3 bytes "
            "with up to 6 calls, one of which is any call whatsoever; large values of 40 to 4100 parts or levels, whole, "
            "cut off or with more behind, with any call at a few places, and of 32780 to 65540 parts or levels; "
            "sequences of any length and tuples and structs of 256 to 65536 parts, ended after the wrong number of parts",
            "thorough": "38 schema shapes; every input of 6 bytes with up to 16 conforming calls; every input of 4 "
            "bytes with up to 7 calls (5 with two arbitrary ones)",
        },
        outside="longer inputs and traversals, other schemas",
        covers={1: "finished messages", 2: "rejected calls", 4: "rejected data"},
        jobs=[J("c07_dec", s, 12, 0, 4) for s in SHAPES] + [J("c07_dec", s, 6, 1, 3) for s in SHAPES]
        + [J("c07_long", k, n, i, opts=XOPTS) for k, n in MLONGS for i in (0, 1)]
        + [J("c07_long", k, n, i) for k, n in LONGS for i in (0, 1)]
        + [J("c07_giant", k, n, opts=XOPTS) for k, n in GIANTS]
        + [J("c07_parts", k, n, opts=XOPTS) for k, n in PARTS]
        + t([J("c07_dec", s, 16, 0, 6) for s in SHAPES] + [J("c07_dec", s, 7, 1, 4) for s in SHAPES]
            + [J("c07_dec", s, 5, 2, 3) for s in SHAPES]),
    ),
    "C08": dict(
        bounds={
            "quick": "7 schema shapes; up to 5 calls of which any 2 are any calls whatsoever, so that a rejected call "
            "is followed by every right and wrong one; for decoding, every input of 2 bytes; 10 shapes: up to 5 calls until the stream fails (encoding) or the "
            "data end or are bad (decoding), then any two calls on a stream that works again",
            "thorough": "38 schema shapes, up to 5 calls, 2 of them arbitrary; the 7 shapes up to 6 calls, 3 arbitrary; stream failures "
            "after up to 7 calls",
        },
        outside="longer traversals; the coder's own serde entry points (see C27)",
        covers={1: "finished messages", 2: "rejected calls", 4: "broken by the stream", 5: "broken by the data"},
        jobs=[J("c08_enc", s, 5, 2) for s in (0, 4, 7, 10, 13, 16, 30)]
        + [J("c08_dec", s, 5, 2, 2) for s in (0, 4, 7, 10, 13, 16, 30)]
        + [J(e, k, n) for e in ("c08_long_enc", "c08_long_dec") for k, n in LONGS]
        + [J("c08_io_enc", s, 5, 3) for s in C08IO] + [J("c08_io_dec", s, 5, 2) for s in C08IO]
        + t([J("c08_io_enc", s, 7, 5) for s in C08IO] + [J("c08_io_dec", s, 7, 4) for s in C08IO]
            + [J("c08_enc", s, 5, 2) for s in SHAPES] + [J("c08_dec", s, 5, 2, 2) for s in SHAPES]
            + [J("c08_enc", s, 4, 3) for s in (0, 4, 7, 10, 13, 16, 30)]
            + [J("c08_dec", s, 4, 3, 2) for s in (0, 4, 7, 10, 13, 16, 30)]),
    ),
    "C09": dict(
        bounds={
            "quick": "38 schema shapes on every input of 4 bytes; 12 shapes, 19 serde types, buffers and schemas on "
            "every input of 11-12 bytes whose first, second or third byte starts a 10-byte length (so lengths up to "
            "and beyond usize::MAX); fixed-length sequences of every length greater than the input; single "
            "allocations limited to 2 MiB",
            "thorough": "likewise, 6 bytes and 13 bytes",
        },
        outside="longer inputs; nesting without end, and few bytes claiming many elements of no bytes, are tried in 9 cases "
        "(all of them recorded findings)",
        covers={1: "decoded", 2: "decoded or truncated", 3: "malformed"},
        jobs=[J("c09_any", s, 4) for s in SHAPES]
        + [J("c09_long", s, 12) for s in (2, 6, 10, 16, 18, 20, 24, 26, 32, 33, 36)] + [J("c09_long", 1, 12, shards=2)]
        + [J("c09_fixed", k, n) for k in range(7) for n in (0, 1, 3)]
        + [J("c09_typed", k, 12) for k in range(19)]
        + [J("c09_into", 0, n) for n in (10, 11)] + [J("c09_into", 1, n) for n in (10, 12, 13)]
        + [J("c09_schema", n) for n in (11, 12)]
        + [J("c09_deep", k, opts=dict(max_depth=40_000, max_steps=400_000_000)) for k in range(7)]
        + [J("c09_nothing", k) for k in range(2)]
        + t([J("c09_any", s, n) for s in SHAPES for n in (5, 6)]
            + [J("c09_long", s, 13, shards=4) for s in (1, 2, 6, 10, 16, 18, 20, 24, 26, 32, 33, 36)]
            + [J("c09_fixed", k, n) for k in range(7) for n in (4, 5)]
            + [J("c09_typed", k, 13, shards=4) for k in range(19)]
            + [J("c09_into", 0, n, shards=4) for n in (12, 13)] + [J("c09_schema", n) for n in (13, 14)]),
    ),
    "C10": dict(
        bounds={
            "quick": "every chain of 1 to 3 constructors out of 6 around a recursion of every legal level, and 6 trees "
            "with up to 3 recursions of every legal level each; up to 8-10 calls; for decoding, every input of 4 bytes; "
            "recursion chains walked through 9, 33, 129 and 257 frames",
            "thorough": "chains of up to 4 constructors, up to 12 calls, inputs of 5 bytes",
        },
        outside="longer chains and traversals",
        covers={1: "finished messages", 2: "round trips"},
        jobs=[J("c10_enc", d, n) for d, n in ((1, 8), (2, 9), (3, 10))]
        + [J("c10_dec", d, n, 4) for d, n in ((1, 8), (2, 9), (3, 10))]
        + [J("c10_enc_many", f, 10) for f in range(6)]
        + [J("c10_dec_many", f, 10, 4) for f in range(6)]
        + q([J("c10_values", k, n) for k, n in BRAIDS])
        + [J("c10_long_enc", n, k, 1) for n in (9, 33, 129, 257) for k in range(5)]
        + [J("c10_long_dec", n, k, 2) for n in (9, 33, 129, 257) for k in range(5)]
        + t([J("c10_enc", 4, 11, shards=8), J("c10_dec", 4, 11, 4, shards=8)]
            + [J("c10_enc_many", f, 12) for f in range(6)] + [J("c10_dec_many", f, 12, 5) for f in range(6)]),
    ),
    "C11": dict(
        bounds={
            "quick": "every chain of 0 to 3 constructors out of 6 around a recursion of any level (usize), legal or "
            "not; up to 3-10 calls, up to 5 with an arbitrary one; whole values and serde on every input of 3 bytes; "
            "illegal recursions reached after 9, 33, 129 and 257 frames",
            "thorough": "chains of up to 4 constructors, up to 11 calls, inputs of 4 bytes",
        },
        outside="longer chains; schemas without any finite value (a sequence of one of itself): whole-value decoding "
        "descends into those forever",
        covers={1: "finished messages", 3: "illegal recursions", 6: "values through illegal recursions"},
        jobs=[J("c11_enc", d, n, 0) for d, n in ((0, 3), (1, 8), (2, 9), (3, 10))]
        + [J("c11_enc", d, 5, 1) for d in (0, 1, 2)]
        + [J("c11_dec", d, n, 0, 3) for d, n in ((0, 3), (1, 8), (2, 9), (3, 10))]
        + [J("c11_dec", d, 5, 1, 2) for d in (0, 1, 2)]
        + [J("c11_value", d, 3) for d in (0, 1, 2)]
        + [J("c11_value_enc", d) for d in (1, 2, 3)]
        + [J("c11_root", 2)]
        + [J("c11_long", n, k) for n in (9, 33, 129, 257) for k in range(5)]
        + t([J("c11_enc", 4, 11, 0, shards=8), J("c11_dec", 4, 11, 0, 3, shards=8), J("c11_value", 3, 3),
             J("c11_value", 2, 4), J("c11_value_enc", 4), J("c11_enc", 3, 6, 1, shards=8)]),
    ),
    "C12": dict(
        bounds={
            "quick": "every value of up to 9 nodes (sequences, strs and bytes up to 2 long) under 38 schema shapes and "
            "under chains of 1 and 2 constructors with a recursion; long sequences, strs and bytes of 255-257, 300 "
            "and 127-70000; tuples of up to 4100, structs and enums of up to 4100 members; "
            "schemas of up to 1030 levels; chains of recursion of up to 1030; sequences of 65540; names of 70000",
            "thorough": "up to 12 nodes, sequences up to 3 long",
        },
        outside="larger values, other schemas",
        covers={1: "round trips"},
        jobs=[J("c12_shape", s, 9, 2) for s in SHAPES]
        + [J("c12_nest", d, 8, 2) for d in (1, 2)]
        + [J("c12_long", n, k) for n in (255, 256, 257, 300) for k in (0, 1)]
        + [J("c12_long", n, k) for n in (127, 128, 16383, 16384, 70000) for k in (2, 3)]
        + [J("c12_long", n, 4) for n in (127, 300)]
        + [J("c12_long", n, 5) for n in (20, 100)]
        + [J("c12_long", n, k) for n in (17, 33, 65, 129, 257) for k in (6, 7)]
        + [J("c12_long", n, 4) for n in (17, 33, 65)]
        + [J("c12_long", n, k) for n in (9, 17, 33, 65, 129, 257) for k in (8, 9)]
        + [J("c12_long", n, k, opts=XOPTS) for k, n in XLONGS]
        + t([J("c12_shape", s, 12, 2) for s in SHAPES] + [J("c12_shape", s, 9, 3) for s in SHAPES]
            + [J("c12_nest", 3, 8, 2, shards=8)]),
    ),
    "C13": dict(
        bounds={
            "quick": "every input of 0 to 4 bytes under 38 schema shapes, of 1 to 3 bytes under chains of 1 and 2 "
            "constructors with a recursion; every dynamic value nested once (up to 2 elements, any ordinal, "
            "one-letter names), conforming or not, under the 38 shapes",
            "thorough": "inputs of up to 6 bytes",
        },
        outside="longer inputs, deeper non-conforming values",
        covers={1: "decoded", 2: "truncated", 3: "malformed", 6: "encoded", 7: "refused"},
        jobs=[J("c13_dec", s, n) for s in SHAPES for n in (0, 1, 2, 3, 4)]
        + [J("c13_dec_nest", d, n) for d in (1, 2) for n in (1, 2, 3)]
        + [J("c13_enc", s, 1) for s in SHAPES]
        + [J(e, k, n) for e in ("c13_long", "c13_long_enc") for k, n in LONGS]
        + t([J("c13_dec", s, n) for s in SHAPES for n in (5, 6)] + [J("c13_dec_nest", 3, 3, shards=8)]
            + [J("c13_dec_nest", d, 4) for d in (1, 2)]),
    ),
    "C14": dict(
        bounds={
            "quick": "54 Rust types with serde implementations (every scalar, strings, options, sequences, arrays, "
            "tuples, maps, unit/newtype/tuple/field structs, enums of every variant kind and of up to 300 "
            "variants, skipped fields, recursive types); every "
            "value up to 2 levels deep with up to 2 elements; every input of 1 and 3 bytes",
            "thorough": "values up to 3 levels deep; every input of 2, 4 and 5 bytes",
        },
        outside="other types, larger values; internally tagged enums and serde(flatten) (refused by design)",
        covers={1: "round trips", 2: "decoded", 3: "refused"},
        jobs=[J("c14_round", k, 2) for k in range(54)]
        + [J("c14_long", k, n) for k, n in BIG14]
        + [J("c14_long", k, 65540, opts=XOPTS) for k in (0, 4, 15, 16)]
        + [J("c14_dec", k, n) for k in range(54) for n in (1, 3)]
        + t([J("c14_round", k, 3) for k in range(54)] + [J("c14_dec", k, n) for k in range(54) for n in (2, 4, 5)]),
    ),
    "C15": dict(
        bounds={
            "quick": "57 instances covering every KnownSchema implementation for a std type, and references, slices and "
            "strs; every value up to 2 levels deep with up to 2 elements",
            "thorough": "values up to 3 levels deep",
        },
        outside="other element types, larger values; the order of hash-based collections is not observed",
        covers={1: "round trips"},
        jobs=[J("c15_round", k, 2) for k in range(57)] + [J("c15_refs")]
        + [J("c15_long", k, n) for k, n in BIG15]
        + t([J("c15_round", k, 3) for k in range(57)]),
    ),
    "C16": dict(
        bounds={
            "quick": "34 types with derived schemas (every kind of struct and enum, up to 20 fields or variants, serde-skipped fields, raw names, "
            "self- and mutually recursive ones through boxes, vectors, options, maps, tuples); every value up to 2 "
            "levels deep with up to 2 elements",
            "thorough": "values up to 3 levels deep",
        },
        outside="other type definitions (the derive macro runs at compile time: the set of definitions is fixed), "
        "larger values",
        covers={1: "round trips"},
        jobs=[J("c16_round", k, 2) for k in range(34)] + [J("c16_long", k, n) for k, n in BIG16]
        + t([J("c16_round", k, 3) for k in range(34)]),
    ),
    "C17": dict(
        bounds={
            "quick": "every schema nested once with up to 2 children or twice with up to 1, recursion of any level, "
            "any sequence length, one-letter names; the 38 shapes; the meta-schema itself; every input of 0 to 4 "
            "bytes as a schema",
            "thorough": "every input of 5 and 6 bytes; nested twice with up to 2 children",
        },
        outside="larger schemas",
        covers={1: "round trips", 2: "decoded", 3: "refused"},
        jobs=[J("c17_round", 1, 2, shards=4), J("c17_round", 2, 1, shards=2)] + [J("c17_shape", s) for s in SHAPES]
        + [J("c17_long", k, n) for k, n in LONGS if k not in (0, 2, 3, 10)] + [J("c17_mix", n) for n in (64, 257)]
        + [J("c17_meta")] + [J("c17_dec", n) for n in (0, 1, 2, 3, 4)]
        + t([J("c17_dec", n) for n in (5, 6)] + [J("c17_round", 3, 1, shards=8)]),
    ),
    "C18": dict(
        bounds={
            "quick": "7 x 5 pairs of schema shapes: a coder is abandoned after up to 6 calls or by malformed input (3 "
            "bytes), then its allocation codes a whole value of up to 4 nodes; clones of allocations after up to 300 "
            "frames; the heap is balanced afterwards",
            "thorough": "all 38 shapes abandoned, up to 8 calls, 4 bytes",
        },
        outside="longer histories",
        covers={1: "reuses"},
        jobs=[J("c18_enc", a, 6, b, 4) for a in (4, 7, 16, 21, 22, 26, 32) for b in (0, 9, 14, 21, 22)]
        + [J("c18_dec", a, 3, b, 4) for a in (4, 7, 16, 21, 22, 26, 32) for b in (0, 9, 14, 21, 22)]
        + [J("c18_clone", n) for n in (0, 3, 4, 5, 40, 65, 100, 300)]
        + [J("c18_long", k, n, 1, opts=XOPTS) for k, n in MLONGS]
        + [J("c18_long", k, n, 2) for k, n in LONGS18] + [J("c18_many", n) for n in (8, 40)]
        + t([J("c18_enc", a, 8, b, 4) for a in SHAPES for b in (14, 21, 22)]
            + [J("c18_dec", a, 4, b, 4) for a in SHAPES for b in (14, 21, 22)]),
    ),
    "C19": dict(
        bounds={
            "quick": "values of up to 5 nodes under 38 schema shapes and of 14 serde types; the stream fails (returns 0, "
            "or one of 3 errors) after any number of bytes less than the message",
            "thorough": "up to 8 nodes, sequences up to 2",
        },
        outside="larger values; streams that fail and later recover while being retried by std",
        covers={1: "failed writes", 2: "failed reads"},
        jobs=[J("c19_enc", s, 5, 1) for s in SHAPES] + [J("c19_dec", s, 5, 1) for s in SHAPES]
        + [J("c19_serde", k, 1) for k in range(14)] + [J("c19_kinds", k) for k in range(19)]
        + [J(e, k, n, opts=XOPTS) for e in ("c19_long_enc", "c19_long_dec") for k, n in MLONGS + DLONGS]
        + [J(e, k, n) for e in ("c19_long_enc", "c19_long_dec") for k, n in LONGS]
        + t([J("c19_enc", s, 8, 2) for s in SHAPES] + [J("c19_dec", s, 8, 2) for s in SHAPES]
            + [J("c19_serde", k, 2) for k in range(14)]),
    ),
    "C20": dict(
        bounds={
            "quick": "values of up to 4 nodes and every input of 1 byte under 38 schema shapes, 14 serde types, and up "
            "to 3 calls of which one is any call whatsoever; with a log that works, always fails (4 ways), or fails "
            "after 1-4 or 7 writes",
            "thorough": "inputs of 2 bytes, up to 4 calls, up to 6 nodes",
        },
        outside="what the log says; logs that panic",
        covers={1: "round trips", 2: "decoded", 3: "refused", 4: "call sequences", 5: "serde round trips"},
        opts=dict(stub_fmt=0),
        assumptions=["what goes to the standard error stream is dropped"],
        jobs=[J("c20_enc", s, 4, 1) for s in SHAPES] + [J("c20_dec", s, n) for s in SHAPES for n in (0, 1)]
        + [J("c20_calls", s, 3, 1) for s in SHAPES]
        + [J("c20_serde", k, 1) for k in range(14)]
        + [J("c20_long", k, n) for k, n in LONGS20]
        + t([J("c20_enc", s, 6, 2) for s in SHAPES] + [J("c20_dec", s, 2) for s in SHAPES]
            + [J("c20_calls", s, 4, 1) for s in SHAPES] + [J("c20_serde", k, 2) for k in range(14)]),
    ),
    "C21": dict(
        bounds={
            "quick": "8 x 6 pairs of schema shapes, values of up to 4 nodes, three messages; a schema followed by a "
            "value of it for 38 shapes, up to 5 nodes",
            "thorough": "38 x 38 pairs, up to 5 nodes",
        },
        outside="more messages, larger values",
        covers={1: "message sequences", 2: "self-describing messages"},
        jobs=[J("c21_two", a, b, 4, 1) for a in (1, 2, 4, 6, 9, 15, 16, 21) for b in (0, 3, 8, 18, 22, 30)]
        + [J("c21_schema", s, 5, 1) for s in SHAPES]
        + [J("c21_long", k, n, 10, 8, opts=XOPTS) for k, n in MLONGS + DLONGS]
        + [J("c21_long", k, n, j, m) for k, n in LONGS for j, m in ((0, 1), (3, 300), (8, 9), (10, 8))]
        + [J("c21_schema_long", k, n) for k, n in LONGS]
        + t([J("c21_two", a, b, 5, 1) for a in SHAPES for b in SHAPES] + [J("c21_schema", s, 8, 2) for s in SHAPES]),
    ),
    "C22": dict(
        bounds={
            "quick": "38 schema shapes, every chain of up to 2 constructors and 6 trees with recursions of level 0 to 6 "
            "and usize::MAX; names empty, of any ASCII character, long, escaped and non-ASCII; errors of every "
            "rejection within 3 calls and of every input of 2 bytes; every error kind; stacks of up to 4 types",
            "thorough": "chains of up to 3 constructors; 4 calls; inputs of 3 bytes",
        },
        outside="the exact wording and layout",
        covers={1: "legal recursions", 2: "recursions beyond the root", 3: "rejected calls", 4: "unfinished coders",
                5: "malformed input"},
        opts=dict(stub_fmt=0),
        jobs=[J("c22_shape", s) for s in SHAPES] + [J("c22_nest", n) for n in (0, 1, 2)]
        + [J("c22_forest", n) for n in range(6)] + [J("c22_names"), J("c22_kinds")] + [J("c22_levels", k) for k in range(4)] + [J("c22_stack", n) for n in (0, 1, 4)]
        + [J("c22_long", k, n) for k, n in LONGS22] + [J("c22_arrows", n) for n in (4, 11)]
        + [J("c22_long_errors", k, n) for k, n in LONGS22]
        + [J("c22_calls", s, 3) for s in SHAPES] + [J("c22_dec", s, n) for s in SHAPES for n in (0, 2)]
        + t([J("c22_nest", 3)] + [J("c22_calls", s, 5) for s in SHAPES] + [J("c22_dec", s, 3) for s in SHAPES]),
    ),
    "C23": dict(
        bounds={
            "quick": "38 schema shapes on every input of 0 to 3 bytes and on every value of up to 6 nodes; 14 scalars on "
            "every input of 0, 1, 2 and 8 bytes; chains of up to 2 constructors with recursion; untagged enums",
            "thorough": "inputs of 4 and 5 bytes, values of up to 9 nodes",
        },
        outside="internally tagged enums and serde(flatten) over identifiers (refused by design), longer inputs",
        covers={1: "described", 2: "refused", 3: "untagged"},
        jobs=[J("c23_any", s, n) for s in SHAPES for n in (0, 1, 2, 3)]
        + [J("c23_valid", s, 6, 2) for s in SHAPES]
        + [J("c23_scalar", k, n) for k in range(14) for n in (0, 1, 2, 8)]
        + [J("c23_long", k, n, opts=XOPTS) for k, n in MLONGS + DLONGS]
        + [J("c23_long", k, n) for k, n in LONGS]
        + [J("c23_nest", 1, 3), J("c23_nest", 2, 2), J("c23_buffered")]
        + t([J("c23_any", s, n) for s in SHAPES for n in (4, 5)] + [J("c23_valid", s, 9, 2) for s in SHAPES]
            + [J("c23_nest", 2, 3)]),
    ),
    "C24": dict(
        bounds={
            "quick": "38 schema shapes, before every one of up to 12 conforming calls (encoding; decoding every input "
            "of 3 bytes), and after up to 4 calls with an arbitrary one",
            "thorough": "up to 16 calls, inputs of 5 bytes, up to 5 calls with an arbitrary one",
        },
        outside="longer traversals; coders broken by an error (need is unspecified then)",
        covers={1: "finished messages", 2: "rejected calls", 4: "rejected data"},
        jobs=[J("c24_enc", s, 12, 0) for s in SHAPES]
        + [J("c24_dec", s, 12, 0, 3) for s in SHAPES]
        + [J("c24_enc", s, 4, 1) for s in SHAPES]
        + [J("c24_long", k, n, opts=XOPTS) for k, n in MLONGS] + [J("c24_long", k, n) for k, n in LONGS]
        + t([J("c24_enc", s, 16, 0) for s in SHAPES] + [J("c24_dec", s, 16, 0, 5) for s in SHAPES]
            + [J("c24_enc", s, 5, 1) for s in SHAPES] + [J("c24_dec", s, 5, 1, 2) for s in SHAPES]),
    ),
    "C25": dict(
        bounds="every input of 0 to 4 bytes (thorough: 6) into buffers holding 0, 1, 3 or 40 bytes; three strs or byte "
        "strings of 0, 2 and 40 bytes through one buffer; strings of 127, 300, 5000 and 70000 bytes",
        outside="longer strings; a byte buffer's contents after an error (unspecified)",
        covers={1: "decoded", 2: "refused", 3: "buffers reused"},
        jobs=[J("c25_into", k, n) for k in (0, 1) for n in (0, 1, 2, 3, 4)] + [J("c25_many", k) for k in (0, 1)]
        + [J("c25_long", k, n) for k in (0, 1) for n in (127, 300, 5000, 70000)]
        + [J("c25_long", k, 1100000, opts=XOPTS) for k in (0, 1)]
        + t([J("c25_into", k, n) for k in (0, 1) for n in (5, 6)]),
    ),
    "C26": dict(
        bounds={
            "quick": "values of up to 4 nodes under 38 schema shapes, every input of 2 bytes, 8 serde types; up to 3 (2 "
            "for arbitrary input, 4 for serde) of the stream's calls are interrupted or transfer one byte only",
            "thorough": "up to 5 such calls, up to 6 nodes, inputs of 3 bytes",
        },
        outside="more such calls, larger values",
        covers={1: "writes", 2: "reads", 3: "arbitrary input", 4: "serde"},
        jobs=[J("c26_enc", s, 4, 1, 3) for s in SHAPES] + [J("c26_dec", s, 4, 1, 3) for s in SHAPES]
        + [J("c26_long", k, n, 2) for k, n in LONGS]
        + [J("c26_drip", k, n, 1, opts=XOPTS) for k, n in MLONGS + DLONGS]
        + [J("c26_drip", k, n, c) for k, n in LONGS for c in (1, 7)]
        + [J("c26_bad", s, 2, 2) for s in SHAPES] + [J("c26_serde", k, 1, 4) for k in range(8)]
        + t([J("c26_enc", s, 6, 1, 5) for s in SHAPES] + [J("c26_dec", s, 6, 1, 5) for s in SHAPES]
            + [J("c26_bad", s, 3, 3) for s in SHAPES]),
    ),
    "C27": dict(
        bounds={
            "quick": "24 serde types against 38 schema shapes and 18 near misses of their own schemas: every value up to "
            "2 levels deep, every input of 2 (near misses: 3) bytes; each leaf type (and usize, isize) against each of 21 leaf and near-leaf "
            "schemas: every value, every input of 4 bytes",
            "thorough": "values up to 3 levels deep, inputs of 4 bytes",
        },
        outside="other types and schemas; how many bytes are consumed before a mismatch is noticed",
        covers={1: "mismatches serializing", 2: "fits serializing", 3: "fits deserializing",
                4: "mismatches deserializing", 5: "malformed"},
        jobs=[J("c27_leaf", k, s, 2 if k in (4, 9) else 4) for k in (*range(17), 21, 22) for s in range(21)]
        + [J("c27_ser", k, s, 2) for k in range(24) for s in SHAPES]
        + [J("c27_de", k, s, 2) for k in range(24) for s in SHAPES]
        + [J("c27_near_ser", k, s, 2) for k in range(24) for s in range(18)]
        + [J("c27_near_de", k, s, 3) for k in range(24) for s in range(18)]
        + [J("c27_off_ser", k, 0, 2 if k < 15 else 1) for k in range(16)]
        + [J("c27_off_de", k, 0, n) for k, n in enumerate((20, 13, 14, 4, 32, 11, 6, 4, 4, 4, 4, 3, 4, 4, 3, 4)) if k != 3]
        + t([J("c27_ser", k, s, 3) for k in range(24) for s in SHAPES]
            + [J("c27_de", k, s, 4) for k in range(24) for s in SHAPES]
            + [J("c27_near_de", k, s, 4) for k in range(24) for s in range(18)]),
    ),
    "C28": dict(
        bounds={
            "quick": "46 schema shapes; implementations that serialize, or ask for, up to 3 values of any kind, with any "
            "claimed length below 256, any of 4 variant numbers and up to 4 names, in any order, stopping anywhere or "
            "ignoring errors; for decoding, every input of 2 bytes",
            "thorough": "up to 4 values, inputs of 3 bytes",
        },
        outside="more values; implementations that panic",
        covers={1: "finished messages", 3: "refused", 4: "finished messages decoded", 5: "unfinished", 6: "mismatches",
                7: "malformed"},
        jobs=[J("c28_ser", s, 3) for s in range(46)] + [J("c28_de", s, 3, 2) for s in range(46)]
        + t([J("c28_ser", s, 4) for s in range(46)] + [J("c28_de", s, 4, 3) for s in range(46)]),
    ),
    "C29": dict(
        bounds={
            "quick": "every rule of the macro alone, within the others and with any length and level (usize), 48 spellings "
            "in all; schemas spliced in: every chain of up to 3 constructors with a recursion of any level; equality "
            "of every pair of such chains of 2 and of 1 to 3 constructors, and of every pair of schemas of one level, with any length, level and names",
            "thorough": "chains of up to 4 constructors",
        },
        outside="other spellings (the macro runs at compile time: the set of spellings is fixed)",
        covers={1: "spelled", 2: "spliced", 3: "compared"},
        jobs=[J("c29_spell", k) for k in range(48)] + [J("c29_splice", d) for d in (0, 1, 2, 3)]
        + [J("c29_equal", a, b) for a, b in ((0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (2, 3))]
        + [J("c29_pairs", k) for k in range(4)] + [J("c29_names", n) for n in (1, 2, 3)]
        + t([J("c29_splice", 4), J("c29_equal", 3, 3)]),
    ),
    "C30": dict(
        bounds={
            "quick": "values of up to 6 and 7 nodes under 38 schema shapes, and every input of 2 bytes; for each of the first 5 "
            "parts met, any of: as a dynamic value, by serde, or call by call with an encoder or decoder of its own "
            "for each call; up to 3 streams",
            "thorough": "up to 8 nodes, inputs of 3 bytes, 6 parts",
        },
        outside="larger values, other ways to split",
        covers={1: "encoded", 2: "decoded", 3: "refused"},
        jobs=[J("c30_enc", s, 7, 2, 5) for s in SHAPES] + [J("c30_valid", s, 6, 2, 5) for s in SHAPES]
        + [J("c30_dec", s, 2, 5) for s in SHAPES] + [J("c30_long", k, n, 5) for k, n in LONGS]
        + t([J("c30_enc", s, 8, 2, 6) for s in SHAPES] + [J("c30_valid", s, 7, 2, 6) for s in SHAPES]
            + [J("c30_dec", s, 3, 6) for s in SHAPES]),
    ),
    "C31": dict(
        bounds={
            "quick": "every stack of up to 7 layers out of 3 types and nameless levels; 22 standard types around 8 types around a "
            "recursion, under up to 3 further layers; stacks of 20 to 300 layers with a "
            "type at the top, at the bottom and in the middle",
            "thorough": "every stack of up to 9 layers",
        },
        outside="types whose schema functions the linker folds into one",
        covers={1: "types found", 2: "types not found"},
        jobs=[J("c31_stack", 6), J("c31_alike")] + [J("c31_std", i) for i in range(8)] + [J("c31_far", n, a) for n in (20, 65, 129, 257, 300) for a in (1, 2, n // 2, n - 1, n)]
        + [J("c31_far", 300, 0)] + q([J("c31_stack", 7)]) + t([J("c31_stack", 9)]),
    ),
    "C32": dict(
        bounds={
            "quick": "every pair of schemas, and every pair of values, of one level (up to 2 parts, names of up to 2 bytes, any "
            "numbers, floats and bytes), alone and within each constructor; triples of one and of mixed kinds; all error kinds and scalar "
            "types; schemas nested 7, 40 and 129 deep or with as many parts, differing in one; values of 2, 129 and 300 parts, nested as "
            "deep, or with as many bytes, differing in one",
            "thorough": "triples of all kinds",
        },
        outside="larger schemas and values differing in several parts",
        covers={1: "equal", 2: "different", 3: "chained"},
        jobs=[J("c32_schema", k, w) for k in range(10) for w in range(6)]
        + [J("c32_value", k, w) for k in range(10) for w in range(5)]
        + [J("c32_deep", n) for n in (7, 40, 129)] + [J("c32_value_long", n) for n in (2, 129, 300)]
        + [J("c32_kinds", k) for k in range(2)]
        + [J("c32_chain", k, k, k) for k in (4, 5, 6, 7, 8, 9)] + [J("c32_value_chain", k, k, k) for k in (1, 2, 4, 6, 8, 9)]
        + q([J("c32_chain", a, b, 3) for a, b in ((0, 4), (5, 6), (7, 8), (9, 9))])
        + t([J("c32_chain", a, b, c) for a in range(10) for b in range(10) for c in range(10)]
            + [J("c32_value_chain", a, b, c) for a in range(10) for b in range(10) for c in range(10)]),
    ),
}

KIND = ("sequences", "fixed-length sequences", "strs", "byte strings", "tuples", "lists through recursion", "structs",
        "enum variants", "schema levels", "recursions to a far ancestor", "values mixing all constructors",
        "names of that length")


def large(c):
    """In words: the large values the jobs of a check have besides the small ones."""
    sizes = {}
    types = 0
    for j in c["jobs"]:
        e = j["entry"]
        if e in ("c14_long", "c15_long", "c16_long"):
            types += 1
        elif e not in ("c05_long", "c09_long", "c12_long", "c10_long_enc", "c10_long_dec", "c11_long", "c25_long",
                       "c32_value_long") and (
                "_long" in e or e == "c26_drip"):
            sizes.setdefault(j["params"][0], set()).add(j["params"][1])
    out = []
    if types:
        out.append("%d large values of Rust types (sizes 17-70000)" % types)
    if sizes:
        out.append("large values with a few unconstrained parts: " + ", ".join(
            "%s %s" % (KIND[k], "/".join(map(str, sorted(sizes[k])))) for k in sorted(sizes)))
    return "; ".join(out)


for _c in CHECKS.values():
    _l = large(_c)
    if _l:
        if isinstance(_c["bounds"], str):
            _c["bounds"] += "; " + _l
        else:
            _c["bounds"] = {k: v + "; " + _l for k, v in _c["bounds"].items()}

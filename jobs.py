"""What every check runs: harness groups (which file is attached to which module of bfffs-core), jobs, bounds."""
COMMON_ASSUMPTIONS = [
    "The encoding is the LLVM IR that rustc produces for /repo's current source (opt-level 1, overflow checks and debug assertions on, fat LTO); rustc and LLVM are trusted.",
    "symex (own symbolic executor, /verif/symex) and z3 are trusted; the executor's encodings are cross-checked by its selftest, and every violation is replayed on natively compiled code.",
]
GROUPS = {}
CHECKS = {}

def group(name, attach, **kw):
    GROUPS[name] = dict(attach=attach, **kw)

def job(entry, *params, time=60, tier="quick", reach=(1,), **kw):
    return dict(entry=entry, params=list(params), time=time, tier=tier, reach=list(reach), **kw)

def check(pid, grp, jobs, bounds, explain, **kw):
    CHECKS[pid] = dict(group=grp, jobs=jobs, bounds=bounds, explain=explain, **kw)

T = "thorough"

# ------------------------------------------------------------------ PRIME-S
group("prime", {"raid/mod.rs": "prime.rs"})
SMALL = [(3, 2, 1), (3, 3, 1), (3, 3, 2), (5, 3, 1), (5, 4, 2), (5, 5, 1), (7, 4, 1), (7, 5, 2), (7, 7, 3), (11, 8, 3)]
MED = [(13, 6, 2), (13, 13, 4), (17, 9, 3), (23, 19, 3), (31, 8, 2)]
TINY = [(n, k, f) for n in (2, 3, 5, 7) for k in range(2, n + 1) for f in range(1, k)]
BIG = [(211, 37, 5, 0, 2), (211, 37, 5, 32766, 4), (211, 37, 5, 44308, 2), (211, 210, 1, 32766, 3), (211, 211, 1, 44309, 1),
       (191, 160, 4, 36288, 2), (41, 41, 1, 1638, 2), (41, 20, 2, 815, 6), (197, 3, 2, 32767, 3)]
RANGE62 = "chunk addresses are r*D+a with the repetition number r symbolic over everything below 2^62/D"
check("L01", "prime",
      [job("h_prime_rt", *c, time=60) for c in SMALL] + [job("h_prime_rtloc", *c, time=60) for c in SMALL]
      + [job("h_prime_rt", *c, time=60) for c in BIG]
      + [job(e, *c, time=300, tier=T) for c in MED + TINY for e in ("h_prime_rt", "h_prime_rtloc")],
      "Arrays (disks, stripe width, redundancy) %s completely (every stripe, every chunk of it, every disk and row); windows of stripes of %s. %s. Thorough adds %s and every legal geometry of at most 7 disks." % (SMALL, BIG, RANGE62, MED),
      "Every chunk id of a repetition (a choice), with the repetition number symbolic, is mapped by the real id2loc and back by the real loc2id; the solver shows equality, range and absence of arithmetic overflow for all repetitions.",
      outside="other geometries; chunk addresses above 2^62")
check("L02", "prime",
      [job("h_prime_distinct", *c, time=60) for c in SMALL + [(13, 13, 4), (23, 9, 3)]] + [job("h_prime_distinct", *c, time=60) for c in BIG]
      + [job("h_prime_distinct", *c, time=300, tier=T) for c in MED + TINY],
      "Arrays %s completely, windows of %s; %s. Thorough adds %s and every legal geometry of at most 7 disks." % (SMALL, BIG, RANGE62, MED),
      "For every stripe the disks of all its chunks are computed by the real id2loc with a symbolic repetition number and shown pairwise different.",
      outside="other geometries")
check("L03", "prime",
      [job("h_prime_seq", *c, time=80) for c in SMALL + [(13, 6, 2)]] + [job("h_prime_seq", *c, time=900, tier=T) for c in MED[1:4] + TINY],
      "Arrays %s: two consecutive repetitions, the first one with a symbolic number. Thorough adds %s and every legal geometry of at most 7 disks." % (SMALL, MED[1:4]),
      "All chunks of two consecutive repetitions are walked in address order through the real id2loc; every disk must be filled row by row without a gap, and data and parity chunks evenly.",
      outside="other geometries")
check("L04", "prime",
      [job("h_prime_iter", n, k, f, 3, (k - 1), time=60) for n, k, f in SMALL] + [job("h_prime_iter", 5, 4, 2, 22, 3, time=60), job("h_prime_iter", 7, 5, 2, 12, 4, time=60)]
      + [job("h_prime_iter", 211, 5, 2, 3, 2, 44307, 3, time=60), job("h_prime_iter", 211, 211, 1, 1, 1, 32766, 2, time=80), job("h_prime_iter", 41, 41, 1, 2, 1, 1638, 2, time=60)]
      + [job("h_prime_iter", 7, 5, 2, 44, 3, time=600, tier=T), job("h_prime_iter", 13, 6, 2, 16, 5, time=900, tier=T), job("h_prime_iter", 23, 19, 3, 3, 2, time=900, tier=T)]
      + [job("h_prime_iter", n, k, f, 5, k - 1, time=300, tier=T) for n, k, f in TINY],
      "Every starting chunk of arrays %s, lengths 3 to 22 stripes, ending on a data or a parity chunk; windows of arrays with 41 and 211 disks. %s." % (SMALL, RANGE62),
      "The real iterator is created at every chunk of a repetition (symbolic repetition number) and compared element by element with the real id2loc.",
      outside="longer iterations, other geometries")
check("L05", "prime",
      [job("h_prime_ctor", 0, 14, time=60, reach=(1, 2)), job("h_prime_ctor", 15, 24, time=60, reach=(1, 2)), job("h_prime_ctor", 212, 300, time=60, reach=(2,)),
       job("h_prime_ctor", 211, 211, time=100, reach=(1, 2)), job("h_prime_ctor", 24, 30, time=60, reach=(1, 2)), job("h_prime_ctor", 32500, 32600, time=60, reach=(2,))]
      + [job("h_prime_parallel", *c, time=60) for c in [(5, 4, 2, 3), (5, 4, 2, 11), (7, 5, 2, 9), (7, 7, 1, 15), (11, 8, 3, 12)]]
      + [job("h_prime_ctor", a, min(a + 9, 211), time=900, tier=T, reach=(2,)) for a in range(31, 212, 10)],
      "Number of disks 0..30, 211..300 and 32500..32600 (thorough: 0..300), stripe width and redundancy over all 16-bit values.",
      "The real constructor is executed with symbolic width and redundancy for each number of disks: it must succeed exactly for the legal geometries and report them, and panic otherwise.",
      outside="number of disks above 300, except 32500..32600")

# ------------------------------------------------------------------ erasure code
group("codec", {"raid/mod.rs": "codec.rs"})
check("E01", "codec",
      [job("h_codec_rt", *c, time=60, reach=(1, 2)) for c in [(2, 1, 2), (3, 1, 2), (9, 1, 1), (3, 2, 1), (4, 2, 2), (5, 2, 2), (10, 2, 1), (6, 3, 2), (7, 4, 1), (8, 2, 2), (9, 3, 1), (10, 4, 1), (8, 5, 1)]]
      + [job("h_codec_xor", m, 2, time=30) for m in (2, 3, 6, 12)]
      + [job("h_codec_rt", *c, time=900, tier=T, reach=(1, 2)) for c in [(12, 6, 1), (19, 3, 1), (20, 4, 1), (24, 1, 2), (16, 4, 1), (30, 2, 1)]],
      "Stripes (columns, redundancy) of up to 10 columns and 5 parities (thorough: up to 30 columns, 6 parities), 1 or 2 bytes per column (all byte values), every set of at most f erasures.",
      "The real encoder, decode-table construction and decoder run on symbolic data; every lost data byte must equal the original for every data content. Equality over GF(2) is decided after a linear normal form, the rest by the solver.",
      outside="columns longer than 2 bytes (the column length only reaches the ISA-L routines); ISA-L itself, which is replaced by a transliteration of its portable C code",
      assumptions=["ISA-L computes what its documentation says; the replay uses the installed libisal"])
check("E02", "codec",
      [job("h_codec_v", *c, time=60) for c in [(3, 1, 4, 4), (4, 2, 4, 3), (5, 2, 3, 3), (4, 1, 3, 3), (3, 2, 5, 5)]] + [job("h_codec_update", *c, time=60) for c in [(4, 2, 2), (5, 1, 2), (6, 2, 1), (7, 3, 1)]]
      + [job("h_sgcursor", *c, time=60) for c in [(3, 3), (4, 3), (4, 4), (5, 3)]]
      + [job("h_codec_v", *c, time=900, tier=T) for c in [(5, 2, 4, 4), (6, 2, 3, 3), (5, 3, 5, 3)]] + [job("h_sgcursor", *c, time=900, tier=T) for c in [(6, 4), (5, 5)]] + [job("h_codec_update", 8, 2, 1, time=600, tier=T)],
      "Columns of up to 5 symbolic bytes split into non-empty segments in every way (up to 5 segments per column, independently per column), 3 to 5 columns; incremental encoding in every order of up to 6 data columns. Cursor: lists of up to 5 bytes, every segmentation and every sequence of requested lengths.",
      "The real vectored and incremental encoders and the real cursor run on symbolic data over all segmentations (choices); the parity must equal that of the plain encoder, the cursor's output the original bytes.",
      outside="empty segments; longer columns",
      assumptions=["ISA-L computes what its documentation says; the replay uses the installed libisal"])

# ------------------------------------------------------------------ helpers
group("util", {"util.rs": "util.rs"})
check("U01", "util",
      [job("h_util_pad", 2, 8, time=60), job("h_util_pad", 3, 4, time=60), job("h_util_zeros", 1, 200000, 0, time=60), job("h_util_zeros", 32766, 32770, 1, time=60), job("h_util_sum", 5, time=60)]
      + [job("h_util_pad", 3, 8, time=600, tier=T), job("h_util_pad", 4, 4, time=600, tier=T), job("h_util_zeros", 1, 4000000, 0, time=600, tier=T), job("h_util_sum", 8, time=600, tier=T)],
      "Lists of up to 3 segments of up to 8 symbolic bytes and paddings; zero lists of every length 1..200000 (thorough 4000000) with a symbolic length; checksums of 5 bytes split at every point.",
      "The real helpers run on symbolic contents and lengths; contents, total length and checksum are compared with the flat byte string.",
      outside="zero_sglist(0), which panics (no caller asks for it)")
check("U02", "util", [job("h_util_empty", time=60)],
      "Every pair of bound kinds over all pairs of 16-bit keys.",
      "The emptiness test of a range with symbolic bounds is compared with the existence of a symbolic member: a range declared empty has none, a range declared non-empty has one by definition of the bounds.")
group("prop", {"property.rs": "property.rs"})
check("P01", "prop",
      [job("h_prop_value", n, l, time=60, reach=r) for n, l, r in [(0, 2, (1, 2)), (0, 3, (1, 2)), (0, 4, (1, 2)), (0, 5, (1, 2)), (1, 3, (2,)), (2, 4, (1,)), (3, 3, (2,)), (4, 4, (1, 2)), (4, 5, (1, 2)), (4, 6, (1, 2)), (4, 7, (1, 2)), (5, 5, (1, 2)), (5, 7, (1, 2))]]
      + [job("h_prop_any", l, time=60) for l in (0, 1, 4, 5, 6, 7, 8)]
      + [job("h_prop_rt", l, time=60) for l in (0, 3)] + [job("h_prop_misc", time=60)]
      + [job("h_prop_value", n, l, time=600, tier=T, reach=r) for n, l, r in [(4, 8, (1, 2)), (4, 9, (1, 2)), (5, 8, (1, 2))]] + [job("h_prop_any", l, time=900, tier=T) for l in (10, 12, 14, 15, 16, 17)],
      "Property names and values as byte strings: every value of up to 7 bytes for each property name, every string of up to 8 bytes as a whole specification (thorough: 9 and 17); every value of every property for display and round trip.",
      "The real parser is executed on symbolic text: it must accept exactly what the grammar of properties allows, yield the value the text denotes, and parse back what it prints.",
      outside="longer texts")

# ------------------------------------------------------------------ cache
group("cache", {"cache/mod.rs": "cache.rs"})
FIRST = [op * 10 + k for op in (0, 1, 2) for k in (0, 1, 2)] + [30]
FUEL = dict(fuel=1_000_000)
check("C01", "cache",
      [job("h_cache_model", 2, 2, 2, 99, time=60, **FUEL)] + [job("h_cache_model", 3, 3, 2, f, time=90, **FUEL) for f in FIRST]
      + [job("h_cache_model", 3, 2, 3, f, time=900, tier=T) for f in FIRST] + [job("h_cache_model", 2, 1, 3, 99, time=900, tier=T)],
      "Up to 3 keys (a record id, and block addresses with the same numbers), up to 3 initial insertions, then every sequence of 2 (thorough 3) of insert, lookup, remove and drop_cache, then insertions that evict what is left. Cache capacity and object sizes are arbitrary 8-bit numbers.",
      "The real cache is run against a list in order of use; sizes and capacity are symbolic, so the solver decides which evictions are possible. Content, size, order of eviction and the identity of the returned objects must agree.",
      outside="sizes above 255; more than 6 objects")
check("C02", "cache",
      [job("h_cache_coalesce", *c, time=60) for c in [(2, 5, 0, 0), (3, 5, 1, 0), (2, 6, 1, 1), (3, 6, 1, 3), (2, 6, 0, 2)]]
      + [job("h_cache_coalesce", *c, time=900, tier=T) for c in [(3, 7, 1, 3), (2, 8, 1, 3), (4, 7, 1, 0)]],
      "Up to 3 simultaneous readers of one block, every sequence of 6 (thorough 8) steps out of: a reader starts, is polled, is cancelled; a device read succeeds or fails; another block evicts this one. Block content is a symbolic byte.",
      "The real get_or_insert! is executed with the schedule as a choice; every reader must finish with the block's data or the device's error, the device must be read once unless there was an error, cancellation or eviction, and later readers must not hang.",
      outside="more readers or steps; preemption inside a critical section (excluded by the mutex)")

# ------------------------------------------------------------------ writeback credit
group("wb", {"writeback/writeback.rs": "writeback.rs"}, head={"writeback/writeback.rs": "extern crate shimstd as std;"})
check("W01", "wb",
      [job("h_wb_conserve", 1, 9, time=60)] + [job("h_wb_conserve", 2, f, time=90) for f in range(4)] + [job("h_wb_queue", *c, time=60) for c in [(3, 6, 0), (3, 6, 1), (4, 7, 0)]] + [job("h_wb_abandon", time=30)]
      + [job("h_wb_conserve", 3, f, time=900, tier=T) for f in range(4)] + [job("h_wb_queue", *c, time=900, tier=T) for c in [(4, 8, 1), (5, 9, 0)]],
      "Every sequence of up to 2 (thorough 3) of atomic_split, split, halve, take, extend and repay on a loan of symbolic size (16 bits) from a bank of symbolic capacity; every order of up to 4 (5) loan applications, repayments and cancellations with symbolic 8-bit sizes and capacity.",
      "The real WriteBack and Credit run with symbolic amounts. Each operation must move exactly the stated amount, loans must be granted first come first served and whenever enough is available, never more than the capacity, and in the end the bank must have its whole capacity.",
      outside="isplit with an amount larger than the credit (allowed, makes it negative); sizes above 16 bits")
check("W02", "wb",
      [job("h_wb_threads", *c, preempt=p, time=90) for c, p in [((2, 1), 6), ((2, 2), 3), ((3, 1), 2)]]
      + [job("h_wb_threads", *c, preempt=p, time=900, tier=T) for c, p in [((2, 2), 5), ((3, 1), 3), ((3, 2), 2), ((2, 3), 3)]],
      "2 threads with one loan each and up to 6 preemptions, 2 with two loans and 3, 3 with one loan and 2 (thorough: 5, 3, and more loans). Preemption at every access to an atomic or mutex. Capacity and sizes are symbolic 8-bit numbers.",
      "The real borrow and repay run in every bounded schedule, the sizes being symbolic. Nobody may wait for ever (deadlock is a violation), no more than the capacity may be lent, and the supply must be whole at the end.",
      outside="weak memory effects (atomics are sequentially consistent here); more preemptions",
      assumptions=["sequentially consistent atomics"])

# ------------------------------------------------------------------ encodings
group("types", {"types.rs": "types.rs"})
check("T01", "types",
      [job("h_types_codec", i, time=30) for i in range(4)] + [job("h_types_order", time=60), job("h_types_txg", time=60, reach=(1, 2, 3, 4)), job("h_types_error", time=60, reach=(1, 2))]
      + [job("h_types_uuid", *c, time=60) for c in [(2, 1), (2, 0)]] + [job("h_types_uuid", *c, time=600, tier=T) for c in [(4, 1), (4, 0)]],
      "All block addresses, record ids, transaction numbers, UUIDs and 16-bit error numbers; the text of UUIDs with 2 (thorough 4) arbitrary bytes.",
      "The real encoders, decoders, comparison and arithmetic run on symbolic values.",
      outside="the rest of the text form of UUIDs (third-party code)")
group("fstree", {"fs_tree.rs": "fstree.rs"})
check("K01", "fstree",
      [job("h_fskey", time=60)] + [job("h_fsrange", i, time=60) for i in range(8)] + [job("h_fshash", n, time=60) for n in (1, 3, 9)],
      "All object numbers, kinds, offsets and hashes below 2^56 (the key's field width); names of 1, 3 and 9 bytes.",
      "Keys and ranges are built by the real code from symbolic components; order, membership and components are compared with the tuple (object, kind, offset).",
      outside="offsets of 2^56 and more (a key has no room for them); collisions of hashes are legal and not excluded here",
      assumptions=["MetroHash is replaced by a weak hash; nothing checked here depends on its strength"])
VALS = [(0, 3), (1, 3), (2, 4), (3, 0), (4, 2), (5, 2), (6, 2), (7, 3), (8, 0)]
check("T02", "fstree",
      [job("h_fsvalue", *c, time=60) for c in VALS] + [job("h_fsvalue", *c, time=600, tier=T) for c in [(0, 12), (2, 12), (4, 4), (5, 3), (6, 4), (7, 8)]],
      "Every kind of value with arbitrary numeric fields, names, links and contents of up to 4 bytes (thorough 12), buckets of up to 2 (4) entries, every truncation.",
      "The real encoder and decoder run on symbolic values; what is decoded must equal what was encoded.",
      outside="longer names and contents (the length only drives a copy)")
check("T03", "fstree",
      [job("h_fsblobs", n, time=90) for n in (1, 2)] + [job("h_fsblobs", 3, time=900, tier=T)],
      "Up to 2 (thorough 3) values: extents, attributes, buckets of two attributes, directory entries; contents of 2 bytes, exactly the threshold and one byte more, first and last byte arbitrary; every mixture of taking back and dropping.",
      "The real flush, pop and drop run against a record store that checks the use of every record.",
      outside="failing record store")
group("label", {"label.rs": "label.rs"})
check("B01", "label",
      [job("h_label_rt", n, time=60) for n in (0, 1, 2)] + [job("h_label_damage", n, time=60) for n in (0, 1)] + [job("h_label_cut", 1, time=60), job("h_label_place", time=30)]
      + [job("h_label_garbage", 31, 0, time=60, reach=(2,)), job("h_label_garbage", 32, 1, time=60, reach=(1, 2)), job("h_label_garbage", 34, 0, time=60, reach=(1, 2)), job("h_label_garbage", 36, 1, time=60, reach=(1, 2))]
      + [job("h_label_rt", 3, time=600, tier=T), job("h_label_damage", 2, time=600, tier=T), job("h_label_cut", 2, time=600, tier=T), job("h_label_garbage", 48, 1, time=600, tier=T, reach=(1, 2))],
      "Labels of up to 2 (thorough 3) pairs of items of arbitrary content and up to 2 trailing bytes; every single damaged byte of magic, checksum and content; every truncation; arbitrary labels of 31 to 36 (48) bytes, with or without the magic number.",
      "The real writer and reader run on symbolic contents, a symbolic damaged byte, or an entirely symbolic label.",
      outside="a damaged length field (depends on the strength of the hash)",
      assumptions=["MetroHash is replaced by a weak hash in which single damaged bytes are noticed"])
group("dml", {"dml.rs": "dml.rs"})
check("D01", "dml",
      [job("h_dml_rt", *c, time=60, reach=r) for c, r in [((4096, 3, 4), (1,)), ((100, 3, 0), (1,)), ((8192, 3, 0), (1, 2)), ((8193, 3, 4), (1, 2)), ((12288, 2, 8), (1, 2)), ((4097, 2, 3), (1, 2))]] + [job("h_dml_tag", time=60, reach=(1, 2))]
      + [job("h_dml_rt", *c, time=900, tier=T, reach=(1, 2)) for c in [(20000, 4, 16), (16384, 4, 7), (8192, 6, 1)]],
      "Buffers of 100 to 12288 bytes with up to 3 arbitrary bytes, element sizes 0, 3, 4, 8; compressed sizes around every block boundary; every compression tag.",
      "The real compression wrapper runs with abstract lossless codecs whose output size is a choice.",
      outside="LZ4, Zstandard and byteshuffle themselves, which are replaced by simple lossless stand-ins")

# ------------------------------------------------------------------ storage stack on simulated disks
DISK={"vdev_file.rs": "disk_file.rs", "vdev_block.rs": "disk_block.rs", "mirror.rs": "disk_mirror.rs", "raid/vdev_raid.rs": "disk_raid.rs", "raid/mod.rs": "disk_raidmod.rs", "cluster.rs": "disk_cluster.rs", "pool.rs": "disk_pool.rs", "ddml/ddml.rs": "disk_ddml.rs", "idml/idml.rs": "disk_idml.rs"}
group("disk", DISK)
group("tree", {"tree/tree/mod.rs": "disk_tree.rs"}, mod="disk")
group("db", {**DISK, "idml/mod.rs": "disk_idmlmod.rs", "database/database.rs": "disk_db.rs"}, mod="disk")
check("V02", "disk",
      [job("h_file_zones", lg, 1024, time=60) for lg in (4, 12, 16)] + [job("h_file_zone_end", lg, 1024, time=60) for lg in (4, 16)]
      + [job("h_file_place", time=60, reach=(1, 2)), job("h_file_erase", time=60)]
      + [job("h_file_zones", lg, 1 << 20, time=300, tier=T) for lg in (5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 17, 20)],
      "Zone map: device size arbitrary from one to 1024 zones (thorough 2^20), zone number and block arbitrary, zone sizes 2^4, 2^12, 2^16 (thorough also 2^5 to 2^20). I/O: disk of 40 blocks, every address, one or two blocks, every kind of transfer; erasing every zone of a disk of 4 zones.",
      "The real VdevFile runs with symbolic size, zone and block numbers, and against a simulated disk that records where each transfer goes.",
      outside="zone sizes that are not a power of two; fspacectl; the FreeBSD system calls themselves")
check("V01", "disk",
      [job("h_block_sched", *c, time=200) for c in [
          (2, 2, 1, 0, 0, 63, 9, 0), (2, 2, 0, 1, 0, 63, 9, 3), (2, 2, 0, 0, 1, 63, 9, 0), (3, 1, 0, 0, 0, 63, 9, 3), (3, 2, 0, 0, 0, 63, 9, 3),
          (3, 2, 1, 0, 0, 21, 9, 2), (3, 2, 0, 1, 0, 21, 9, 2), (3, 2, 0, 0, 1, 21, 9, 2), (4, 1, 0, 0, 0, 5, 9, 3), (4, 1, 0, 0, 0, 19, 9, 3)]]
      + [job("h_block_remove", *c, time=60) for c in [(3, 1, 0), (4, 1, 0), (4, 2, 1)]] + [job("h_block_accum", n, time=60, reach=(1, 2)) for n in (2, 3)] + [job("h_block_zone", time=60)]
      + [job("h_block_sched", *c, time=900, tier=T) for c in [
          (3, 2, 1, 0, 0, 63, 9, 3), (3, 2, 0, 1, 0, 63, 9, 3), (3, 2, 0, 0, 1, 63, 9, 3), (4, 2, 0, 0, 0, 5, 9, 3), (4, 2, 0, 0, 0, 21, 1, 5), (4, 2, 1, 0, 0, 16 + 1, 9, 3), (4, 2, 0, 0, 1, 5, 9, 3), (5, 1, 0, 0, 0, 5, 0, 4), (3, 3, 1, 1, 0, 21, 9, 3)]]
      + [job("h_block_remove", *c, time=300, tier=T) for c in [(6, 2, 1), (7, 2, 0), (5, 3, 1)]],
      "Up to 3 (thorough 4 or 5) operations of every kind (write, writev, read, readv, sync, space map) at every combination of adjacent addresses ahead of and behind the head, queue depth 1 to 3; every order of submission and completion; one EAGAIN, one disk error or one cancelled caller at every point; removal with up to 4 (7) operations queued.",
      "The real scheduler runs on a simulated disk; kinds, addresses, completion order, refusals, errors and cancellations are choices of the solver. Each operation must reach the disk exactly once, with the disk's result and data, in order with respect to syncs.",
      outside="more operations; calls from several threads at once (the scheduler's lock is taken as atomic); sync_all of the disk itself",
      assumptions=["AIO completes each accepted request exactly once; a request refused with EAGAIN has no effect"])
check("M01", "disk",
      [job("h_mirror_read", *c, time=60) for c in [(2, 4, 0), (2, 4, 1), (2, 4, 2), (2, 4, 3), (3, 3, 0), (3, 3, 1), (3, 3, 3)]] + [job("h_mirror_read_shared", 2, 2, 4, time=60)]
      + [job("h_mirror_write", *c, time=60) for c in [(2, 4, k) for k in range(6)] + [(3, 3, 0), (3, 3, 3), (3, 3, 4)]]
      + [job("h_mirror_repair", *c, time=60) for c in [(2, 4, 16, 2, 0, 1), (2, 4, 16, 2, 1, 1), (3, 3, 16, 2, 1, 1), (2, 4, 140, 2, 0, 1)]]
      + [job("h_mirror_open", n, time=120) for n in (2, 3)]
      + [job(e, 4, 3, k, time=900, tier=T) for e, ks in (("h_mirror_read", (0, 1, 2, 3)), ("h_mirror_write", (0, 1, 2, 3, 4, 5))) for k in ks] + [job("h_mirror_read", 3, 4, k, time=300, tier=T) for k in range(4)]
      + [job("h_mirror_repair", *c, time=900, tier=T) for c in [(3, 4, 140, 2, 1, 1), (4, 3, 16, 2, 0, 1), (2, 4, 220, 2, 1, 1)]] + [job("h_mirror_open", 4, time=900, tier=T)],
      "Mirrors of 2 or 3 (thorough 4) children, each of them present, missing, rebuilding or faulted; every subset of disks failing; arbitrary 32-bit read counter; every order of completion; zones of 16 and 140 (220) blocks; opening after a label write that reached any subset, with any subset of the disks gone.",
      "The real Mirror runs on the real scheduler and VdevFile over simulated disks; states, failures and completion orders are choices, the position of the first child to read is symbolic.",
      outside="attaching new devices; a disk that fails some operations but not others")
RAIDOUT="reads wider than two stripes; arrays of more than 7 disks; blocks are compared in 4 of their 4096 bytes (the coder works bytewise, see E01, E02)"
RAIDHOW="The real VdevRaid runs on the real Mirror, block scheduler and VdevFile over simulated disks (PrimeS layout, real parity computation); "
check("R01", "disk",
      [job("h_raid_read", *c, time=200) for c in [(3, 3, 1, 1, 7, 5, a, b, w) for a, b, w in ((0, 1, 0), (1, 0, 0), (1, 1, 0), (1, 0, 1))]
       + [(3, 3, 1, 2, 9, 9, 0, 1, 0), (5, 4, 1, 2, 14, 8, 0, 1, 0), (5, 4, 2, 2, 14, 8, 0, 2, 0), (5, 4, 2, 2, 14, 8, 2, 0, 0), (5, 4, 2, 2, 14, 8, 1, 1, 0), (5, 4, 2, 2, 14, 8, 2, 0, 1),
          (5, 5, 2, 3, 20, 7, 0, 2, 0), (5, 5, 2, 1, 12, 7, 0, 3, 0), (7, 4, 1, 2, 24, 12, 0, 1, 0), (5, 2, 1, 2, 8, 8, 0, 1, 0)]]
      + [job("h_raid_read", *c, time=900, tier=T) for c in [(7, 7, 3, 1, 12, 6, 0, 3, 0), (7, 4, 1, 2, 24, 12, 1, 1, 0), (5, 5, 2, 3, 20, 7, 1, 1, 0), (7, 7, 3, 1, 12, 6, 2, 1, 1), (5, 4, 2, 3, 26, 14, 1, 1, 0), (7, 5, 2, 2, 30, 14, 2, 0, 1)]],
      "Arrays of 3 to 7 disks, stripes of 2 to 7, 1 to 3 parity, chunks of 1 to 3 blocks; reads of every offset and length over two to three stripes; every subset of disks out of service (before or after the write) and every subset failing reads, up to one more than the parity.",
      RAIDHOW+"offset, length and the failing disks are choices; the data is compared with what was written.", outside=RAIDOUT)
check("R02", "disk",
      [job("h_raid_write", 3, 3, 1, 1, 2, 3, 0, 0, time=200), job("h_raid_write", 3, 3, 1, 2, 2, 5, 0, 1, time=400), job("h_raid_reopen", 3, 3, 1, 2, 5, 5, time=100)]
      + [job("h_raid_reopen", *c, time=300) for c in [(5, 4, 1, 2, 8, 7), (5, 5, 2, 1, 5, 4)]]
      + [job("h_raid_write", *c, time=1500, tier=T) for c in [(5, 4, 1, 2, 2, 8, 1, 0), (3, 3, 1, 1, 3, 3, 0, 1), (5, 5, 2, 1, 2, 5, 0, 1)]],
      "Histories of 2 (thorough 3) writes of every length up to two stripes, then flush or finish, on arrays of 3 to 5 disks; reopening at every write pointer.",
      RAIDHOW+"lengths of the writes and what follows are choices; every order of completion of the first operations.", outside=RAIDOUT)
check("R03", "disk",
      [job("h_raid_zones", *c, time=200) for c in [(5, 4, 1, 2, 40, 3), (3, 3, 1, 1, 30, 3), (5, 3, 1, 1, 40, 3), (7, 4, 2, 2, 64, 2), (5, 5, 2, 3, 50, 3)]]
      + [job("h_raid_zones_big", *c, time=300) for c in [(5, 4, 1, 16, 16, 4, 0), (5, 4, 1, 16, 16, 4, 2), (7, 4, 2, 16, 16, 3, 1), (3, 3, 1, 16, 16, 3, 1)]]
      + [job("h_raid_zones_big", *c, time=1500, tier=T) for c in [(7, 7, 3, 16, 16, 3, 1), (5, 4, 2, 1, 16, 3, 1), (11, 5, 2, 16, 16, 2, 1)]]
      + [job("h_raid_zones", *c, time=900, tier=T) for c in [(11, 5, 2, 2, 130, 2), (7, 5, 2, 3, 100, 3)]],
      "Arrays of 3 to 7 (thorough 11) disks with 2 to 4 zones of 30 to 64 blocks per disk: every block of every zone; zones of 65536 blocks per disk: every stripe, symbolic.",
      RAIDHOW+"where each block of a zone lands is computed by the real code and compared with the zones of the disks.", outside="other geometries")
check("R04", "disk",
      [job("h_raid_long", *c, time=200) for c in [(3, 3, 1, 1, 6, 4, 1, 0, 0), (5, 4, 2, 2, 8, 5, 1, 1, 0), (5, 4, 2, 2, 8, 5, 1, 0, 1), (7, 3, 1, 1, 8, 5, 1, 0, 0), (7, 3, 1, 1, 8, 5, 0, 0, 1), (5, 5, 2, 1, 9, 6, 2, 0, 0)]]
      + [job("h_raid_long", *c, time=1500, tier=T) for c in [(7, 7, 3, 1, 8, 4, 2, 0, 1), (7, 4, 2, 2, 12, 8, 2, 0, 0), (5, 5, 2, 1, 9, 6, 1, 1, 0)]],
      "Arrays of 3 to 7 disks, 1 or 2 (thorough 3) parity; reads of every offset and length over up to two stripes; every subset of disks holding corrupt data, out of service or failing reads, up to the parity in total.",
      RAIDHOW+"the consumer takes candidates until one is right, as the layers above do with checksums.", outside=RAIDOUT)
check("R05", "disk",
      [job("h_raid_admin", *c, time=200) for c in [(3, 3, 1, 1, 1, 0, 2), (3, 3, 1, 1, 0, 1, 2), (5, 5, 2, 1, 1, 1, 2)]]
      + [job("h_raid_rebuild", *c, time=100) for c in [(3, 3, 1, 1, 9, z, o) for z in (0, 1) for o in (0, 1)] + [(5, 3, 1, 4, 20, 1, 0), (5, 4, 2, 3, 20, 1, 0)]]
      + [job("h_raid_rebuild_open", 5, 4, 1, 2, 20, 0, 1, time=100)]
      + [job("h_raid_health", *c, time=200) for c in [(3, 3, 1, 1, 2), (5, 4, 2, 1, 2)]]
      + [job("h_raid_open", 3, 3, 1, 1, 1, time=100), job("h_raid_open", 5, 4, 2, 2, 1, time=200)]
      + [job(*c, time=1500, tier=T) for c in [("h_raid_health", 5, 4, 2, 1, 4), ("h_raid_open", 5, 4, 2, 2, 2), ("h_raid_open", 7, 5, 2, 2, 2), ("h_raid_admin", 7, 4, 2, 2, 2, 0, 3), ("h_raid_admin", 5, 5, 2, 1, 2, 0, 3)]],
      "Arrays of 3 to 7 disks with every subset out of service, missing or failing up to the limits given per job; 2 (thorough 4) steps of fault and restore on any device; rebuilding with every number of blocks written to the zone.",
      RAIDHOW+"which disks are affected is a choice.", outside="removing and attaching devices; "+RAIDOUT)
CLHOW="The real Cluster and FreeSpaceMap run on the real VdevRaid or NullRaid, Mirror, scheduler and VdevFile over simulated disks; "
check("F01", "disk",
      [job("h_cl_history", *c, time=300) for c in [(1, 1, 0, 1, 3, 42, 4, 1, 0), (1, 1, 0, 1, 2, 80, 5, 1, 0), (3, 3, 1, 1, 3, 42, 4, 0, 0), (3, 3, 1, 2, 2, 82, 4, 1, 0),
          (1, 1, 0, 1, 3, 42, 7, 1, 0x4334), (3, 3, 1, 2, 2, 82, 10, 0, 0x04444444), (1, 1, 0, 1, 2, 84, 7, 0, 0x0444)]]
      + [job("h_cl_history", *c, time=1500, tier=T) for c in [(1, 1, 0, 1, 3, 42, 6, 1, 0), (3, 3, 1, 1, 3, 42, 5, 1, 0), (3, 3, 1, 2, 2, 82, 7, 0, 0x333), (5, 4, 1, 2, 2, 82, 5, 0, 0), (5, 4, 1, 2, 2, 1 << 11 | 2, 8, 0, 0x3333)]],
      "Histories of 4 or 5 operations (thorough 6; up to 10 where the first ones are given) on clusters of 2 or 3 zones of 16 blocks per disk, on a bare mirror and on arrays of 3 (thorough 5) disks: writes of 1 to 6 blocks, freeing any extent, ending the transaction, and reopening.",
      CLHOW+"each operation is a choice; a model predicts addresses, ENOSPC, allocated and used space, closed zones, and what reading yields.",
      outside="concurrent callers (the map is behind a lock); repair of mirrors; longer histories")
check("F02", "disk",
      [job("h_cl_fsm", *c, time=200) for c in [(300, 3, 0), (300, 5, 0x321), (300, 4, 0x21)]] + [job("h_cl_corrupt", n, n, 1 if n > 1 else 0, 1, 3, 80, time=60) for n in (1, 3)] + [job("h_cl_open_eio", *c, time=60) for c in [(1, 1, 0, 1, 3), (3, 3, 1, 2, 3)]]
      + [job("h_cl_fsm", *c, time=1500, tier=T) for c in [(300, 4, 0), (256, 4, 0), (255, 4, 0), (600, 5, 0x21), (300, 6, 0x4321)]] + [job("h_cl_corrupt", 1, 1, 0, 1, 3, 4096, time=900, tier=T)],
      "Space maps of 300 (thorough 255, 256, 600) zones, 3 to 5 operations on zones at the edges of the map's blocks, saved after any of them; every single-bit error in the first 80 bytes (thorough: the whole block) of a stored map; read or write errors while opening.",
      CLHOW+"operations, moments of saving and the damaged bit are choices; the map is loaded again and compared.",
      outside="several damaged bits (the checksum is a hash)")
check("O01", "disk",
      [job("h_pool_history", *c, time=200) for c in [(34, 80, 3, 0, 0), (34, 80, 3, 1, 0), (33, 20, 7, 0, 0x222), (290, 20, 6, 0, 8738), (33, 33280, 5, 1, 34), (33, 33024, 6, 1, 546)]] + [job("h_pool_errors", 2, o, time=200) for o in (2, 3)]
      + [job("h_pool_history", *c, time=1500, tier=T) for c in [(34, 80, 5, 0, 0), (33, 16, 7, 0, 0x2222222), (546, 20, 5, 1, 0), (34, 80, 4, 1, 0)]] + [job("h_pool_errors", *c, time=1500, tier=T) for c in [(3, 3), (2, 4), (3, 4)]],
      "Pools of 2 or 3 clusters of 1 to 4 zones; histories of 3 to 7 operations: writes of 2 to 15 blocks with any load on each cluster, freeing any extent, ending the transaction; 2 to 4 concurrent writes with any subset of disks failing, in every order of completion.",
      "The real Pool, Cluster, NullRaid, Mirror, scheduler and VdevFile run over simulated disks; operations, load, failures and completion orders are choices; one model per cluster predicts addresses, space and errors.",
      outside="more clusters; clusters of different redundancy")
check("D02", "disk",
      [job("h_ddml_damage", *c, time=200) for c in [(1, 2, 0, 0, 0, 100, 1, 0), (1, 2, 0, 0, 1, 9000, 1, 0), (1, 2, 0, 0, 0, 5000, 1, 0), (3, 3, 1, 1, 1, 9000, 1, 0), (1, 2, 0, 0, 1, 9000, 2, 1), (1, 3, 0, 0, 1, 9000, 1, 1)]]
      + [job("h_ddml_history", *c, time=200) for c in [(1, 1, 0, 0, 3, 100000, 0), (3, 3, 1, 1, 3, 20000, 3), (1, 2, 0, 0, 4, 20000, 1)]]
      + [job("h_ddml_damage", *c, time=1500, tier=T) for c in [(3, 3, 1, 2, 2, 20000, 1, 1), (5, 4, 2, 1, 2, 9000, 2, 0), (5, 5, 2, 2, 3, 12300, 1, 1), (1, 3, 0, 0, 2, 20000, 2, 1)]]
      + [job("h_ddml_history", *c, time=1500, tier=T) for c in [(1, 2, 0, 0, 4, 20000, 0), (3, 3, 1, 1, 4, 20000, 0)]],
      "Records of 100 to 9000 (thorough 20000) bytes, each compression, 5 sizes of compressor output around the limits; mirrors of 2 or 3 disks and arrays of 3 (thorough 5); every subset of disks damaged in one of 3 ways or failing; histories of 3 or 4 operations with a small or large cache.",
      "The real DDML, Cache, Pool and everything below run over simulated disks; compressor and hash are stand-ins (a run-length compressor with adjustable output, FNV-1a); operations, damage and failures are choices; the record read is compared with the record written.",
      outside="damage the checksum doesn't notice; the real compressors and hash", assumptions=["LZ4 and zstd restore what they compressed", "the checksum notices the damage"])
check("I01", "disk",
      [job("h_idml_history", *c, time=200) for c in [(1, 2, 0, 0, 4, 3, 1048576, 0, 0), (3, 3, 1, 1, 4, 3, 20000, 0, 0), (1, 2, 0, 0, 3, 8, 1048576, 0x44444444, 1), (1, 2, 0, 0, 4, 5, 20000, 0x423, 1)]]
      + [job("h_idml_history", *c, time=1500, tier=T) for c in [(1, 2, 0, 0, 4, 4, 20000, 0, 1), (3, 3, 1, 1, 4, 4, 20000, 0, 1), (1, 2, 0, 0, 4, 6, 20000, 0x423, 1), (1, 1, 0, 0, 3, 10, 20000, 0x52433333, 1)]],
      "Histories of 3 operations on an empty pool and of 2 after given prefixes (thorough 4; 3 after prefixes): put of 100, 4096 or 13000 bytes, get, pop, delete, evict, ending the transaction with or without reopening, cleaning; mirror of 2 disks and array of 3, 3 or 4 zones of 16 blocks.",
      "The real IDML with its B+trees, DDML, Cache, Pool, Cluster and devices runs over simulated disks; operations are choices; the record table and allocation table are checked after every step with IDML::check, records against those put.",
      outside="longer histories; trees of more than one leaf; reference counts above 1")
check("I02", "disk",
      [job("h_idml_clean_race", 1, 2, 0, 0, 4, k, c, time=200) for k in (0, 1, 2, 3, 4) for c in (0, 1) if (k, c) != (3, 0)]
      + [job("h_idml_clean_race", 1, 2, 0, 0, 4, 3, 0, time=1500, tier=T)] + [job("h_idml_clean_race", 3, 3, 1, 1, 4, k, 0, time=1500, tier=T) for k in (0, 1, 2, 4)],
      "A zone of 4 records, one of them deleted, is cleaned while one other operation (delete, pop, get, put, end of transaction) on any record begins at any of 12 points of the cleaning; completions in any order.",
      "The real IDML and everything below run over simulated disks on the executor; the moment, the record and the order of completion of disk operations are choices.",
      outside="more than one concurrent operation; more records")
DBHOW="The real Database internals, Forest, IDML, B+trees, DDML, Cache, WriteBack, Pool, Cluster and devices run over simulated disks; "
check("X01", "db",
      [job("h_db_history", *c, time=300) for c in [(1, 1, 0, 0, 6, 2, 1048576, 0, 11), (1, 1, 0, 0, 6, 5, 20000, 0x743, 11), (3, 3, 1, 1, 6, 3, 1048576, 5, 11)]]
      + [job("h_db_history", *c, time=1500, tier=T) for c in [(1, 1, 0, 0, 6, 3, 1048576, 0, 11), (1, 1, 0, 0, 6, 7, 20000, 0x7431, 11), (3, 3, 1, 1, 6, 6, 20000, 0x734, 11), (1, 1, 0, 0, 6, 8, 1048576, 0x7557473, 11)]],
      "Histories of 2 free operations, on an empty file system and after given prefixes (thorough 3): writing an extent of 100 or 4500 bytes under two keys, removing, sync, evicting, flushing, cleaning, stopping and reopening; one disk or an array of 3, 6 zones.",
      DBHOW+"operations are choices; contents are compared with a model after every reopening and at the end, and the record and allocation tables and the trees are checked.",
      outside="more keys (the trees have one leaf each); longer histories; several file systems")
check("X02", "db",
      [job("h_db_crash", *c, time=300, reach=(1, 2)) for c in [(1, 1, 0, 0, 6, 1, 1048576, 0, 10, 0), (1, 1, 0, 0, 6, 3, 1048576, 1863, 10, 0), (3, 3, 1, 1, 6, 1, 1048576, 3, 10, 0)]]
      + [job("h_db_crash_space", 1, 1, 0, 0, 6, 1, 1048576, 3, 10, 1, time=200, reach=(), max_viol=60)]
      + [job("h_db_crash", *c, time=1500, tier=T) for c in [(1, 1, 0, 0, 6, 2, 1048576, 0, 10, 0), (3, 3, 1, 1, 6, 2, 1048576, 0x3, 10, 0), (1, 1, 0, 0, 6, 5, 20000, 0x7353, 10, 0)]],
      "A sync of the changes of any 1 operation (thorough 2) on an empty or a given file system; power fails at any of its disk operations; of the writes not yet synced either none, all, any single one, or all but any single one is lost.",
      DBHOW+"the operation at which power fails and the set of lost writes are choices; the database is opened again from the disks and compared with the last and the last but one transaction.",
      outside="other subsets of lost writes; torn blocks; several power failures", assumptions=["disks write single blocks atomically"])
check("X03", "db",
      [job("h_db_race", 1, 1, 0, 0, 6, n, time=300) for n in (0, 1)]
      + [job("h_db_race", *c, time=1500, tier=T) for c in [(3, 3, 1, 1, 6, 0), (1, 1, 0, 0, 6, 2)]],
      "One or two writes and one sync, beginning in any order with up to two disk completions between them, on an open or not yet open file system; disk operations complete in any order.",
      DBHOW+"order, moments and completions are choices; afterwards everything is read back, synced, and the database reopened.",
      outside="real threads (the tasks run on one executor); more tasks")
check("X04", "db",
      [job("h_db_sync_error", 1, 1, 0, 0, 6, b, time=300, max_viol=60) for b in (0, 1)]
      + [job("h_db_sync_error", *c, time=1500, tier=T, max_viol=60) for c in [(3, 3, 1, 1, 6, 0), (1, 2, 0, 0, 6, 1)]],
      "A sync of a small or a blob extent during which any one disk write or flush fails with EIO, followed by another sync without errors and a restart.",
      DBHOW+"the operation that fails is a choice.", outside="several errors")

TREEHOW="The real Tree and Node code runs on a record store in memory that serializes every node and insists that records be used only while they exist and freed once; "
check("A01", "tree",
      [job("h_tree_history", *c, time=300) for c in [(9509, 0, 6, 0, 0, 511, 1), (9509, 0, 12, 0, 20, 4, 1), (10280, 1, 14, 0, 20, 4, 1), (9509, 0, 10, 0, 20, 131, 2), (9509, 0, 3, 0, 0, 3, 3), (9509, 0, 22, 7, 30, 3, 1), (9509, 0, 22, 0, 30, 648, 1), (9509, 1, 7, 1, 3, 23, 1)]]
      + [job("h_tree_history", *c, time=1500, tier=T) for c in [(9509, 0, 22, 0, 30, 4, 1), (9509, 1, 22, 1, 3, 4, 1), (9509, 0, 9, 0, 20, 519, 2), (9509, 0, 9, 0, 0, 7, 2), (9509, 0, 30, 7, 40, 131, 2), (10280, 0, 40, 0, 50, 7, 1), (9509, 0, 4, 0, 0, 3, 4)]],
      "Trees of 3 to 22 (thorough 40) keys inserted upwards, downwards or mixed, fanouts 2 to 5 and 2 to 8, up to 3 levels, clean or dirty; then 1 to 3 (thorough 4) operations among insert, remove, range_delete, range, get, flush, reopen, clean_zone and operations with a failing read; keys and ends of ranges any 32-bit number, ends inclusive, exclusive or open.",
      TREEHOW+"keys are symbolic; after each operation the tree's own check, its whole content and last key are compared with an ordered map, at the end the records it owns with those stored, and all write-back credit is repaid.",
      outside="values that own records (InlineExtent etc.: see X01); range_delete with failing reads; write errors (X04)")
check("A02", "tree",
      [job("h_tree_race", *c, time=300) for c in [(9509, 8, 0, 0, 1, 1, 1, 1, 0), (9509, 8, 0, 2, 3, 3, 2, 1, 0), (9509, 8, 0, 3, 8, 47, 1, 2, 0), (9509, 7, 0, 0, 16, 15, 4, 2, 0), (9509, 7, 0, 0, 128, 15, 1, 1, 0), (9509, 8, 0, 0, 4, 3, 2, 2, 0), (9509, 16, 0, 0, 128, 15, 2, 5, 1), (9509, 16, 0, 0, 7, 7, 9, 12, 1)]]
      + [job("h_tree_scan_race", 9509, 16, 0, 0, op, 1, 8, 5, 1, time=100, max_viol=60, reach=()) for op in (16, 32)]
      + [job("h_tree_race", *c, time=1500, tier=T) for c in [(9509, 16, 0, 0, 3, 15, 3, 3, 1), (9509, 16, 0, 5, 15, 15, 4, 4, 1), (9509, 16, 0, 0, 15, 143, 7, 7, 1), (9509, 8, 0, 0, 39, 15, 1, 1, 0), (9509, 16, 0, 5, 128, 15, 2, 3, 1)]],
      "Trees of 7 to 16 keys (2 or 3 levels) on disk or partly dirty; any two of insert, remove, range_delete, flush and clean_zone, with 2 levels also get and range, on any or every few keys, the second beginning at any of the first 4 or 16 steps of the first; store operations complete in any order (2 levels) or oldest or newest first (3 levels).",
      TREEHOW+"the operations, their keys, the moment and the order of completion are choices; results and final content must be those of one of the two orders.",
      outside="three or more concurrent operations; real threads; fairness of the tree's locks (futures-locks is replaced by a stand-in)")

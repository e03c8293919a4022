"""Development helper: merges the entries below into properties.jsonl (same id replaces)."""
import json, sys
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
B = "bfffs-core/src/"
p("U01", "Scatter-gather helpers preserve content and length",
  "Padding a list of buffers to a multiple keeps its bytes in order, appends only zeros, and as few as needed. A list of zeros has exactly the requested length and contains only zeros. The checksum of a list of buffers is that of its concatenation and does not depend on how the bytes are split.",
  "inputs", "all contents, all segmentations, all lengths within the bounds",
  "Tests pad a handful of fixed lists and build zero lists of one or two lengths.",
  [B+"util.rs"], [("padding, zero lists, checksums", B+"util.rs: copy_and_pad_sglist, zero_sglist, checksum_sglist, checksum_iovec")])
p("U02", "A range is empty exactly if nothing is in it",
  "A range of keys is reported empty if and only if its bounds exclude every key that compares between them; in particular a range whose equal bounds are not both inclusive is empty.",
  "inputs", "all kinds of bounds, all pairs of keys",
  "Tests list a few combinations; the combination of two exclusive equal bounds was wrong.",
  [B+"util.rs"], [("range emptiness", B+"util.rs: RangeBoundsExt::is_empty")])
p("P01", "Dataset properties parse exactly, and print back what was parsed",
  "A property given as text is accepted exactly if its name exists and its value is legal for that name, and then denotes that value; anything else is refused without a crash. Every property, name and source prints to text that parses back to the same thing.",
  "inputs", "all texts within the length bounds, all property values",
  "Tests parse a few examples; the set of texts is unbounded.",
  [B+"property.rs"], [("parsing", B+"property.rs: TryFrom<&str> for Property, FromStr for PropertyName"), ("printing", B+"property.rs: Display impls")])
p("C01", "The block cache evicts least recently used blocks, and only when full",
  "A lookup returns the block that was inserted under that key unless it has been removed or evicted. The cache never exceeds its capacity; it evicts only when an insertion would exceed it, only as many blocks as necessary, and in order of last use. Its reported size is the sum of the sizes of the blocks it holds.",
  "inputs histories", "all sequences of operations within the bounds, all block sizes and capacities",
  "The doubly linked list of keys must stay consistent for every history; tests follow a few.",
  [B+"cache/mod.rs", B+"cache/lru.rs"], [("LRU list", B+"cache/lru.rs: LruCache")])
p("C02", "Concurrent readers of a block share one read, and all of them finish",
  "When several tasks want the same uncached block, each of them eventually gets that block's content or an error the device reported, whatever the order in which the tasks run, fail or are cancelled. While no read fails, the device is read only once. A failed or cancelled read leaves nothing behind that could block later readers.",
  "schedules fault_sequences", "all interleavings of starts, polls, cancellations, evictions and device completions within the bounds",
  "Tests run one ordering, without errors.",
  [B+"cache/mod.rs", B+"ddml/ddml.rs", B+"idml/idml.rs"], [("pending insertions", B+"cache/mod.rs: get_or_insert!")])
p("W01", "Writeback credit is conserved, and lent first come first served",
  "Dividing, merging and moving credit conserves its total, and each operation moves exactly the amount it says. Never more credit is lent than the capacity. Loans are granted in the order of application, and whenever enough credit is available; when all credit has been repaid, the whole capacity can be lent again, also after applications have been abandoned.",
  "inputs histories", "all amounts and capacities, all sequences of operations within the bounds",
  "Leaking a single byte of credit per operation eventually stops all writes; tests use a handful of amounts.",
  [B+"writeback/writeback.rs"], [("credit arithmetic", B+"writeback/writeback.rs: Credit"), ("queue of borrowers", B+"writeback/writeback.rs: WriteBack")])
p("W02", "No writer waits for ever for writeback credit",
  "Whatever the interleaving of borrowers and repayers, a borrower whose request does not exceed the capacity gets its credit once enough has been repaid; when all is repaid the supply equals the capacity.",
  "schedules inputs", "all thread schedules with the stated number of threads, loans and preemptions; all amounts and capacities",
  "A lost wakeup needs a particular interleaving of lock-free operations, and hangs the file system.",
  [B+"writeback/writeback.rs"], [("sleeping and waking", B+"writeback/writeback.rs: borrow, awaken, repay")])
p("T01", "Addresses, identifiers and error numbers have stable, lossless encodings",
  "A block address, record id, transaction number or UUID is encoded in its fixed number of bytes, little endian, and decoded to the same value; truncated encodings are refused. Encoded error numbers keep their number, unknown ones become EUNKNOWN. Addresses are ordered by cluster, then LBA, ids and transactions as numbers. Arithmetic on transaction numbers never wraps around.",
  "inputs", "all values",
  "Tests encode single values; the on-disk format and tree order rely on every value.",
  [B+"types.rs"], [("encodings and order", B+"types.rs: PBA, RID, TxgT, Uuid, Error")])
p("K01", "File system keys sort by object, kind and offset, and ranges select exactly",
  "The keys of a file system tree are ordered by object, then kind, then offset or hash, and give their components back. Each range (an object, its extents between two offsets, its attributes, a directory's entries from an offset on, the dying inodes) contains exactly the keys it should. Hashes stay within their 56 bits.",
  "inputs", "all objects, kinds, offsets and hashes that fit a key",
  "Reading, listing and deleting all go by ranges; an off-by-one shows only for particular neighbours.",
  [B+"fs_tree.rs"], [("keys and ranges", B+"fs_tree.rs: FSKey, ObjKey")])
p("T02", "File system values read back as they were written",
  "Every inode, directory entry, extent, attribute, bucket, property and dying inode record decodes to what was encoded, in the announced number of bytes; no truncated encoding is accepted.",
  "inputs", "all kinds of values, all fields, within the bounds on lengths",
  "Tests encode two example values.",
  [B+"fs_tree.rs", B+"property.rs"], [("encoding", B+"fs_tree.rs: Readable and Writable of FSValue and its parts")])
p("T03", "Values moved out to blobs come back unchanged and are freed exactly once",
  "When a tree node is flushed, exactly the contents above the size threshold are moved to records of their own; taking a value back in yields the original content, and removing or taking back a value frees each of its records exactly once. The space a value accounts for does not change.",
  "inputs histories", "all mixtures of values and operations within the bounds",
  "Tests flush single values; buckets and mixtures are not covered.",
  [B+"fs_tree.rs"], [("blobs", B+"fs_tree.rs: flush_bt, dpop, ddrop")])
p("B01", "Labels read back as written, and damaged labels are refused without a crash",
  "What has been written into a vdev's label is read back identically. A label that is incomplete, lacks the magic number, or has a damaged byte, is refused with an error; no content of a label, however absurd, crashes the reader. The label and spacemap areas have the announced size and place.",
  "inputs", "all contents, all damaged bytes, all truncations within the bounds",
  "Tests damage one byte of a fixed label; a length near 2^64 crashed the reader.",
  [B+"label.rs"], [("labels", B+"label.rs: LabelReader, LabelWriter")])
p("D01", "Compression is lossless, and only used when it saves space",
  "A record is stored compressed only if that saves at least a block, and decompresses to the original; otherwise it is stored as it is. Records of at most one block are never compressed. A damaged compression tag yields an integrity error, not a crash.",
  "inputs", "all compressed sizes, all tags, all positions of content within the bounds",
  "Tests use two buffers; sizes around the block boundaries are not covered.",
  [B+"dml.rs"], [("compression", B+"dml.rs: Compression::compress, decompress")])
p("V02", "Every block of a disk belongs to exactly one zone, or to the reserved area",
  "A disk's zones are adjacent, not empty, on the disk, and disjoint from labels and space maps; lba2zone inverts zone_limits. Data, label and space map transfers go to exactly the requested blocks, transfers into the wrong area are refused, and erasing a zone erases exactly that zone.",
  "inputs", "all device sizes, zone and block numbers, addresses within the bounds",
  "Tests look at a few blocks of one 64 MB file; the last zone of any other size is not covered.",
  [B+"vdev_file.rs"], [("zones, I/O", B+"vdev_file.rs: VdevFile")])
p("V01", "The I/O scheduler issues every operation once and reports the disk's result",
  "Every operation given to a disk's scheduler is issued exactly once, whole and unaltered even when merged with others, and completes with the disk's result, in whatever order the disk works and however often it refuses for lack of resources. The queue depth is respected, nothing moves past a sync, a caller that goes away disturbs nobody else, and removing the disk cancels what has not been issued and waits for the rest.",
  "schedules fault_sequences", "all orders of submission and completion, all refusals, errors and cancellations within the bounds",
  "Tests script single orders with a mock; the interplay of merging, refusals, cancellation and syncs is not covered.",
  [B+"vdev_block.rs"], [("scheduler", B+"vdev_block.rs: Inner, VdevBlock, BlockOp")])
p("M01", "A mirror serves reads while any healthy child works, and writes reach all",
  "A read from a mirror yields the current data if any healthy child can be read, whichever child is tried first, and never data of a missing, faulted or rebuilding child. A write succeeds only if every healthy child has it. Labels are written only to healthy children, or to rebuilding ones when these are finished. Rebuilding copies exactly the used part of a zone to every rebuilding child. A mirror reopened after a crash rebuilds the children that missed the newest transaction.",
  "fault_sequences schedules configurations", "all states of the children, all subsets of failing disks, all completion orders within the bounds",
  "Tests script one failure at a time with mocks; combinations of states, failures and orders are not covered.",
  [B+"mirror.rs"], [("mirror", B+"mirror.rs: Mirror, ReadAt, ReadvAt, ReadSpacemap")])
RA=B+"raid/vdev_raid.rs"
p("R01", "RAID reads return what was written with up to f disks bad",
  "Reading any range of an array that has been written returns the data written, as long as no more disks than the redundancy are out of service or fail reads, whatever the alignment; with more, reads that need them fail with an error, and never return wrong data or panic.",
  "inputs fault_sequences", "all offsets, lengths and failing subsets within the bounds",
  "Unit tests use mock children and a few offsets; reconstruction with unaligned reads and failures at once isn't covered.",
  [RA], [("raid reads", RA+": read_at, read_at_one, read_at_multi, read_at_reconstruction")])
p("R02", "RAID writes of any length keep order, contents and parity",
  "Blocks written to a zone in any sequence of writes are stored consecutively in the order written, can be read back at once and after the zone is flushed, finished or reopened, with parity correct for every stripe; padding is accounted for; blocks not yet written do not disturb those before.",
  "inputs histories schedules", "all histories of writes within the bounds",
  "The stripe buffer splits and merges writes by alignment; tests try a few lengths.",
  [RA], [("raid writes", RA+": StripeBuffer, write_at, write_at_one, write_at_multi, flush_zone, finish_zone")])
p("R03", "RAID zones map onto whole, disjoint zones of the disks",
  "Zones of an array are disjoint, in order, and start and end on stripe boundaries; every block of an array's zone lies in the corresponding zone of each disk; lba2zone agrees with zone_limits; opening, finishing and erasing a zone concern exactly these.",
  "inputs configurations", "all blocks of the geometries given",
  "Tests compare single numbers for a few geometries.",
  [RA], [("raid zones", RA+": zone_limits, lba2zone, zones, size, min_max_lba etc.")])
p("R04", "read_long offers every candidate reconstruction, once each",
  "For data that fails its checksum, read_long offers, in turn, what is read and every reconstruction possible with the parity at hand; if some combination of disks within the redundancy is at fault the right data is among the candidates, errors count against the disk at fault, and the iteration ends.",
  "inputs fault_sequences", "all corrupt, missing and failing subsets within the bounds",
  "Tests corrupt one disk in a fixed place.",
  [RA], [("raid read_long", RA+": read_long, ReconstructionIterator")])
p("R05", "A degraded array keeps working, reports its health and rebuilds",
  "With disks missing or failing within the redundancy, labels and spacemaps can still be written and read; fault and restore take effect on exactly the named device, and the reported health follows; the array can be reassembled from the labels of the disks at hand, in any order; rebuilding a mirror's new disk copies everything written to the zone.",
  "configurations fault_sequences", "all subsets of disks and steps within the bounds",
  "Tests take one disk away at a time, mostly with mocks.",
  [RA], [("raid administration", RA+": write_label, write_spacemap, read_spacemap, fault, restore, status, open, repair_mirror_zone")])
CL=B+"cluster.rs"
p("F01", "Disk space is handed out once, accounted for, and reclaimed",
  "A cluster allocates each write a range in one zone that overlaps nothing written since the zone was erased; data stays readable until it is freed; ENOSPC is returned only when no space is left for the write, and then changes nothing; allocated, used and garbage figures are exact; a zone whose data have all been freed is erased and becomes available at the end of the transaction, and no other zone is.",
  "histories inputs", "all histories within the bounds",
  "Tests use mocks and a handful of sequences; leaks and overlaps need particular orders of writes, frees and closing zones.",
  [CL], [("allocation", CL+": Cluster::write, free, flush, advance_transaction, FreeSpaceMap")])
p("F02", "The free-space map is restored exactly, and damage is noticed",
  "However zones have been opened, filled, freed and reaped, and whenever the map was saved, the map loaded from disk equals the one saved last; a damaged or unreadable map, or an error reopening a zone, yields an error rather than a wrong map or a panic.",
  "histories inputs", "all histories and single-bit errors within the bounds",
  "Tests check single maps against literal bytes.",
  [CL], [("space map", CL+": FreeSpaceMap::serialize, deserialize, open, SpacemapOnDisk")])
p("O01", "A pool places each write on a cluster that has room",
  "Whatever the load on the clusters, a write to a pool is placed on one of its clusters, in space nothing else uses, and reads back from the address returned; it fails with ENOSPC only if no cluster has room, and with an I/O error only if the disk failed, using no space then; load figures return to zero when the pool is idle; flush and sync fail if any cluster does.",
  "histories fault_sequences schedules", "all histories, loads, failures and completion orders within the bounds",
  "Tests use mocked clusters and one choice at a time.",
  [B+"pool.rs", CL], [("choice of cluster", B+"pool.rs: Stats::choose_cluster, Pool::write")])
p("D02", "A record read is the record written, or an error",
  "A record read through get, pop or get_direct, cached or not, compressed or not, of any length, is what was put; while no more disks are damaged or failing than the redundancy, it can be read; beyond that an error is returned, never wrong data; used space is that of the live records, and a deleted record is not cached.",
  "inputs fault_sequences histories", "all subsets of damaged disks, operations and compressor outputs within the bounds",
  "Recovery depends on which copy is damaged and on lengths relative to blocks and stripes; tests check one combination.",
  [B+"ddml/ddml.rs", B+"raid/vdev_raid.rs", B+"mirror.rs"], [("read with recovery", B+"ddml/ddml.rs: DDML::read, put_common, pop_direct")])
p("I01", "Indirect records survive moves, transactions and reopening",
  "Each record put gets an identifier never used before and yields the bytes put until it is deleted or popped, after which it is gone, whatever transactions, evictions, cleaning and reopening of the pool come in between; the record table and the allocation table stay inverse and used space is exactly what records and tables occupy.",
  "histories", "all histories within the bounds",
  "Tests use mocks for the layers below, or a few sequences.",
  [B+"idml/idml.rs", B+"tree/tree/mod.rs", B+"ddml/ddml.rs"], [("tables", B+"idml/idml.rs: IDML::put, pop, delete, clean_zone, open")])
p("I02", "Cleaning a zone does not disturb concurrent use of its records",
  "While a zone is cleaned, other operations may read, delete, pop or add records or end the transaction at any moment: each gets what it would without cleaning, nothing is freed twice or reappears, and the tables are consistent afterwards.",
  "schedules", "all moments and orders of completion within the bounds",
  "Tests clean idle zones.",
  [B+"idml/idml.rs"], [("cleaning", B+"idml/idml.rs: IDML::clean_zone, move_record, delete, pop")])
D=B+"database/database.rs"
p("X01", "A database holds exactly what was written, and after a restart what was synced",
  "Reading an extent of a file system yields what was written last, whatever syncs, flushes, cache evictions and cleanings happen in between; after a restart the database holds exactly the state of the last sync; records, allocation table and space accounting always agree and the trees are well formed.",
  "histories", "all histories within the bounds",
  "Integration tests follow a few fixed sequences.",
  [D, B+"idml/idml.rs", B+"ddml/ddml.rs", B+"tree/tree/mod.rs"], [("transactions", D+": Inner::fswrite, sync_transaction_priv, Inner::open_filesystem")])
p("X02", "After a power failure the database holds the last or next to last transaction",
  "If power fails at any moment during a sync and any unsynced disk writes are lost, the database can be opened again and holds exactly the state of the last completed sync or that of the one in progress; once a sync has reported success its state survives. Space accounting agrees and the database can be used on.",
  "crash_points", "all moments of power failure and the sets of lost writes within the bounds",
  "Tests never interrupt a sync.",
  [D, B+"label.rs", B+"cluster.rs", B+"ddml/ddml.rs"], [("order of writes, labels and syncs", D+": sync_transaction_priv")])
p("X03", "A write that completed is durable after the next sync, whatever it raced with",
  "When writes and a sync begin concurrently, in any order and on file systems not opened before, every write completes, is visible to readers, and is durable once a sync that began after its completion has succeeded.",
  "schedules", "all orders and moments within the bounds",
  "Tests run one operation at a time.",
  [D], [("dirty flag, opening of trees", D+": Inner::fswrite, Inner::open_filesystem, sync_transaction_priv")])
p("X04", "A failed sync is reported, and only a really durable sync succeeds",
  "If a disk operation fails during a sync, the sync reports an error; a later sync reports success only if all data are durable; until then the last synced state remains intact on disk.",
  "fault_sequences", "every disk operation of the sync failing",
  "Tests have no failing disks below a database.",
  [D], [("errors during a sync", D+": sync_transaction_priv"), ("tree flush", B+"tree/tree/mod.rs: flush")])
TR=B+"tree/tree/mod.rs"
p("A01", "A B+tree is an exact ordered map and owns exactly its records",
  "After any sequence of insertions, removals, range deletions, flushes, reopenings and cleanings, lookups, range queries and the last key are those of an ordered map; the tree stays balanced within its fanout limits, with correct transaction ranges; each of its records is stored once and freed once; write-back credit is fully repaid; a failed read is reported and changes nothing.",
  "histories inputs", "all keys and histories within the bounds",
  "Splits, merges and steals depend on how keys fall; tests use fixed trees.",
  [TR, B+"tree/node.rs"], [("operations", TR+": insert, remove, range_delete_pass1, range_delete_pass2, get_range_r, flush_once, clean_zone"), ("nodes", B+"tree/node.rs: split, merge, take_low_keys, take_high_keys, xlock")])
p("A02", "Concurrent tree operations behave as if one after the other",
  "When two operations on a tree overlap, including flushing and cleaning, both complete; their results and the final content are those of some order of the two; a range query returns each key present all the time exactly once, in order; the tree stays well formed and owns exactly its records.",
  "schedules", "all operations, moments and completion orders within the bounds",
  "Tests hardly ever run two operations on one tree.",
  [TR, B+"tree/node.rs"], [("lock coupling", TR+": insert_int, remove_int, flush_r, get_range_r, rewrite_node_r")])
def main():
    f = "/verif/properties.jsonl"
    L = [json.loads(x) for x in open(f) if x.strip()]
    new = {x["id"]: x for x in P}
    L = [new.pop(x["id"], x) for x in L] + [x for x in P if x["id"] in new]
    open(f, "w").write("".join(json.dumps(x) + "\n" for x in L))
if __name__ == "__main__":
    main()

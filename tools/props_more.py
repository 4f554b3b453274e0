MIXED = ("contract-based deductive verification of the Go source (govc) for the functions under contract; a bounded replay against the real code stands in, "
         "labelled bounded, for what is outside the verifier's reach")

p("C05", "Fixed-width tree ids and the index conversions lose nothing",
  "The 2, 3, 4 and 5 byte little-endian id codecs of the weddingcake and weddingcakeback packages write exactly their storage width and no other byte, and read back the id that was written when it fits; "
  "in weddingcakeback an id that does not fit is refused (panic) and is never silently truncated. "
  "The conversions between global presentation index, top-tier index, single-tree index and hash-index id are exact inverses: the first index of a range maps to id 1, 0 is reserved for no match and comes back as -1, and the range test accepts exactly offset <= i < offset+count.",
  ["inputs"], "every 64-bit id, every offset, every buffer",
  "the tests reach small ids only; the byte positions above the second and the refusal of wide ids are never exercised",
  ["weddingcakeback/types.go", "weddingcakeback/hashidconversions.go", "weddingcake/types.go"],
  [("id codecs", "weddingcakeback/types.go ID16..ID40, weddingcake/types.go"), ("conversions", "weddingcakeback/hashidconversions.go")],
  note="every codec and conversion is proved for all inputs (lemmas instantiate the generic codecs)")
p("C07", "The top tier is an exact list of hashes with first-index reverse lookup",
  "Every hash appended to the cake's top tier gets the next presentation index after those below and above it, starting from the tier's first presentation index; reading any index in the tier's range gives the hash that was appended there (whatever the caller does with its own buffer afterwards), and any other index is reported as not found and leaves the destination unchanged. "
  "Reverse lookup gives the FIRST index at which a hash was appended, and not-found exactly for hashes never appended; duplicates are tolerated. "
  "What the tier hands to a bake is each distinct hash exactly once, with its first index, in order. After a sync or a close and reopen, the file holds exactly the hashes and all answers are the same.",
  ["inputs", "histories"], "every first index, every sequence of appends (with duplicates), lookups, syncs and reopens",
  "tests append a few distinct hashes from index 0; duplicates, reused buffers, non-zero first indices and reopening are not mixed",
  ["weddingcakeback/tiertop.go", "weddingcakeback/tiertopcreator.go", "weddingcakeback/hashidconversions.go"],
  [("append: map, slice and file together", "weddingcakeback/tiertop.go AppendHash"), ("lookup", "weddingcakeback/tiertop.go TryIndexOfHash/TryGetHashAtIndex"), ("source of a bake", "weddingcakeback/tiertop.go GetHashesAtIndex"), ("reopening", "weddingcakeback/tiertop.go Open")],
  note="append (representation invariant over the map and the list), both lookups and the bake source are proved for all states; opening and the bake trigger are covered by bounded replay")
p("C08", "The cake finds every hash at its first index, across tiers and bakes",
  "After any sequence of appends, bakes (by hand or because the top tier is full), syncs, closes and reopens, the cake gives for every presentation index the hash that was appended there, and for every hash its FIRST presentation index whichever tier it now lives in; a hash never appended gives -1 and an index outside those presented is an error. "
  "Baking a tier moves all its hashes to the next tier, cascading when the destination is full, without losing, changing, or reordering any of them.",
  ["inputs", "histories", "configurations"], "every hash content, every history of appends, bakes and reopens, every number of reassurance bytes and forests per tier",
  "tests bake one or two generations of random hashes; cascades, duplicates across tiers, shared prefixes and reopening between bakes are not reached",
  ["weddingcakefront/cake.go", "weddingcakefront/cakecreator.go", "weddingcakeback/tierbelow.go", "weddingcakeback/donutforestwrite.go", "weddingcakeback/tierbelowsource.go", "weddingcakeback/singletree.go", "weddingcakeback/donutforestread.go"],
  [("lowest tier has the last word", "weddingcakefront/cake.go IndexOfHash"), ("candidate checked against the hashes file", "weddingcakeback/tierbelow.go TryIndexOfHash"), ("baking", "weddingcakeback/donutforestwrite.go Write"), ("lookup in the trees", "weddingcakeback/tierbelow.go recurseLookupHash")],
  level="exploration", technique=MIXED,
  note="proved: the order of the tiers in both lookups for any number of tiers, that a lower tier never reports an index whose stored hash differs, and its index range; the tree walk and the bake are covered by bounded replay only")
p("C04", "Array stores hold exactly the appended values, whatever is cached",
  "A store of integer arrays on disk (plain or cached) gives, for every key, exactly the values appended to that key in order, after any interleaving of appends to any keys (ascending, or going back to older keys), reads, flushes, syncs, cache trims and reopenings, for any number of file and folder digits, element width and cache limit.",
  ["histories", "configurations"], "every interleaving of operations on every key, every digit split, width and cache limit",
  "the test appends in ascending order with one configuration; going back to older files, folders not yet created and trimming the cache are not combined",
  ["intarrayarray/intarraymapstore.go", "intarrayarray/cachedintarraymapstore.go", "intarrayarray/concretemapstorecreator.go", "intarrayarray/intarrayarray.go"],
  [("latest and older files", "intarrayarray/intarraymapstore.go AppendToArray"), ("cache and its trimming", "intarrayarray/cachedintarraymapstore.go loadIntoCache/trimCache"), ("save and load", "intarrayarray/intarrayarray.go SaveFile/LoadFile")],
  level="exploration", technique=MIXED,
  note="proved: appending to and reading one file's arrays; the stores' files and cache are covered by bounded replay only")
p("C06", "Hash trees find every hash they hold, in memory and as stored bytes",
  "A tree built over any duplicate-free set of hashes of equal length (1 to 64 bytes), with any number of reassurance bytes, gives for every hash of the set the presentation index it was built with; for any other hash it gives no match, or an index whose hash agrees with it in at least the configured number of bytes (so with full reassurance never a wrong match). "
  "The serialised form (any id widths that fit, any number of node formats per level), also after being written to chunk files next to other chunks and mapped back, gives exactly the same answers as the tree in memory. "
  "Building a tree leaves the caller's hashes untouched. The single tree over hashes with a common prefix holds whole hashes and never gives a wrong match.",
  ["inputs", "configurations"], "every duplicate-free set of hashes, every hash length, every reassurance byte count, every id width",
  "tests look up random hashes, whose trees are two or three levels deep; nodes at the borders between formats, trees that examine every byte, and wrong matches are not reached",
  ["weddingcake/shallowtree.go", "weddingcake/chunk.go", "weddingcake/chunklevel.go", "weddingcake/nodeformat.go", "weddingcake/treeshape.go", "weddingcake/chunkfiles.go", "weddingcakeback/singletree.go", "weddingcakeback/donutforestread.go"],
  [("finding a node in a level", "weddingcake/chunklevel.go ExtractNode, weddingcakeback/donutforestread.go ExtractNode"), ("slot to next node, per format", "weddingcake/chunklevel.go nextLevelNodeId"), ("node serialisation", "weddingcake/chunk.go serializeFullNode/serializeTinyNode/serializeLeafNode"), ("reassurance", "weddingcake/shallowtree.go LookupHash, weddingcake/chunk.go recurseLookupHash")],
  level="exploration", technique=MIXED,
  note="proved for all inputs: locating a node's bytes, recognising its format, the next-node lookup in each format, the leaf, full and tiny serialisers, node sizes and format choice, id allocation; building a whole tree and walking it are covered by bounded replay")
p("C14", "A block's binary form is decoded exactly",
  "Decoding the binary form of any well-formed Bitcoin block or transaction (any counts, compact sizes of every width, legacy and segregated witness, any scripts and witness stacks) gives the header fields, and per transaction the version, inputs and outputs (ids, output numbers, values, scripts) byte for byte and in order, "
  "the number of bytes read, and the size, stripped size (without marker, flag and witnesses), weight (3*stripped + size) and virtual size (rounded up). The block hash and the transaction ids are the double SHA-256 of the header and of the transaction without its witness. "
  "Everything is held in the block's own storage: nothing of a previous block or of the caller's buffer shows through, and entries already in a storage stay as they were.",
  ["inputs", "histories"], "every well-formed block and transaction, every storage content before it",
  "the tests of this package only decode JSON; no binary block is decoded by any stable test",
  ["intrinsicobjects/binaryblock.go", "intrinsicobjects/binarytransaction.go", "intrinsicobjects/multitransactionstorage.go", "intrinsicobjects/intrinsictransaction.go"],
  [("walking the transaction", "intrinsicobjects/binarytransaction.go ParseBinaryTransaction"), ("compact sizes", "intrinsicobjects/binaryblock.go ReadCompactSize"), ("header, sums, reuse of a block", "intrinsicobjects/binaryblock.go ParseBinaryBlock")],
  note="proved for every well-formed transaction: positions, all fields and contents, sizes, no out-of-range access, earlier storage untouched; transaction ids, block hash, header fields and block sums are covered by bounded replay")
p("C15", "A block's JSON form is decoded to the same objects, amounts exact to the satoshi",
  "Decoding Bitcoin Core's JSON for a block or transaction gives the same objects as decoding the binary form (hashes, header fields, versions, input references, output values and scripts, sizes, weights, segwit flag; the output number of a coinbase input, which JSON does not have, excepted). "
  "Every amount from 0 to 21 million coins, written with eight decimals, becomes exactly that number of satoshis. A missing previous block hash means the zero hash, a coinbase input refers to the zero transaction id; ids that are not 64 digits long are errors.",
  ["inputs"], "every block and transaction, every amount",
  "tests decode the genesis block and check a few fields of the intermediate structures; no amount other than 50 coins occurs",
  ["intrinsicobjects/jsonblock.go", "intrinsicobjects/jsontransaction.go", "indexedhashes/hexstring.go"],
  [("amounts", "intrinsicobjects/jsontransaction.go parseJsonTransaction"), ("ids", "indexedhashes/hexstring.go HashHexToSha256"), ("block fields", "intrinsicobjects/jsonblock.go ParseJsonBlock")],
  note="proved: the mapping from the decoded JSON structures, with every amount up to 21 million coins exact under IEEE rounding; encoding/json itself and the block header fields are covered by bounded replay")

p("C16", "A block's median time past is the median of the last eleven block times",
  "Computing the median time of the next block gives the median of that block's own time and the times of the up to ten blocks before it (of n times the one at position n/2 when sorted); the list kept for the following block holds exactly these times, at most eleven, oldest first, in the order of the blocks, with their values unchanged.",
  ["inputs", "histories"], "every list of up to eleven times in any order, with equal times",
  "no stable test computes a median time",
  ["intrinsicobjectschi/chain.go", "intrinsicobjectscri/chain.go"],
  [("median of the last eleven", "intrinsicobjectschi/chain.go PostIntrinsicCalculateMedianTime, intrinsicobjectscri/chain.go PostIntrinsicCalculateMedianTime")],
  note="proved for both implementations and every list")
p("C17", "One-block views present exactly the block they hold, and refuse others",
  "A holder of one block at a time (intrinsicobjectschi, intrinsicobjectscri) hands out handles that identify a block by its height and a transaction, input or output by its number within its parent: no two different numbers give the same handle, numbers that cannot be represented are refused (panic), and no block has the invalid handle. "
  "A handle of the current block gives exactly that block's contents: hash, times, sizes, the handles of its transactions, their inputs (none for the coinbase) and outputs in order, references to source outputs, values and scripts; a handle of another block, or a transaction id the block does not contain, is an error. "
  "Going to the next block succeeds only from the current one, to a block whose previous hash is the current block's hash; heights and the transaction numbers given to the transaction indexer follow on without gaps, each with its own id, parent block and first transaction.",
  ["inputs", "histories"], "every block and every handle; every sequence of blocks",
  "no stable test uses the one-block holders",
  ["intrinsicobjectschi/chain.go", "intrinsicobjectschi/handles.go", "intrinsicobjectschi/block.go", "intrinsicobjectscri/chain.go", "intrinsicobjectscri/block.go", "intrinsicobjectscri/transaction.go", "intrinsicobjectscri/handles.go"],
  [("handles", "intrinsicobjectschi/handles.go"), ("one block chain by handles", "intrinsicobjectschi/chain.go"), ("one block chain by objects", "intrinsicobjectscri/chain.go, block.go, transaction.go"), ("numbering for the indexer", "PostIntrinsicGatherTransHashes")],
  note="proved for every block: handles, the next-block step, transaction numbering and the getters of both implementations; the block's source (a channel) and the indexer are assumed contracts")
p("C11", "A stored hash is split and packed into a bin entry without losing a bit",
  "For every even number of bins, every hash gets a bin number below the number of bins (which fits the width reserved for it) and a sort number below the bins' divider; the truncated hash, bin number and sort number together determine the hash, and joining them gives back its 32 bytes. "
  "A bin entry of 24 hash bytes, 1 to 8 bytes of index and 1 to 8 bytes of sort number has exactly the configured size and reads back the hash, index and sort number that were written; an index or sort number that does not fit is refused and never truncated. "
  "Sort numbers order hashes of one bin as their low 64 bits do.",
  ["inputs", "configurations"], "every hash, every even number of bins, every index and sort number width",
  "the stable tests of indexedhashes3 only look for sensible parameters; no hash is split and no entry is written",
  ["indexedhashes3/params.go", "indexedhashes3/abbreviatedhash.go", "indexedhashes3/hash.go", "indexedhashes3/binentrybytes.go", "indexedhashes3/truncatedhash.go"],
  [("divider and widths", "indexedhashes3/params.go calculateDerivedValues"), ("bin and sort number", "indexedhashes3/abbreviatedhash.go"), ("entry layout", "indexedhashes3/binentrybytes.go newBinEntryBytes/writeBinEntryBytes/getHashIndexSortNum")],
  note="proved for every hash, number of bins and width; the split-and-join and write-and-read round trips are lemmas over the contracts")
p("C09", "An indexed hash store gives each hash its index back",
  "Hashes appended to an indexed store (on disk with any number of partial-hash bits, entries of 1 to 7 bytes and 2 to 8 collisions per chunk; in memory; or the plain file of hashes) get the next index each, and the count and the hash at each index are what was appended. "
  "Looking a hash up gives the first index at which an equal hash was appended, and -1 exactly when there is none, however many hashes share their partial bits, and the same after closing and opening again, also read-only. "
  "An append whose index cannot be represented in an entry is an error which leaves the store as it was; parameters outside the ranges are refused. A uniform hash store preloaded from a file of hashes finds each hash at its first index, in however many passes it was preloaded. "
  "(Appending to a uniform store after preloading is excluded.)",
  ["inputs", "histories", "configurations"], "every list of hashes (repeats, shared partial bits), every parameter in range, every sequence of appends, lookups and reopenings",
  "tests look up a few dozen hashes in one or two configurations; chains of collisions longer than a chunk and the widths' limits are not reached",
  ["indexedhashes/hashstore.go", "indexedhashes/concretehashstorecreator.go", "indexedhashes/basichashstore.go", "indexedhashes/memoryindexed.go", "indexedhashes/uniform.go"],
  [("lookup word, chain of collision chunks", "indexedhashes/hashstore.go AppendHash/IndexOfHash"), ("file of hashes", "indexedhashes/basichashstore.go"), ("map", "indexedhashes/memoryindexed.go"), ("bins and overflow files", "indexedhashes/uniform.go, indexedhashes/multipasspreloader.go")],
  note="proved for all contents of the files: the plain file of hashes, the memory store, and looking a hash up through the lookup word and any chain of collision chunks (equal when found; when not found, an arbitrary entry of the chain is not equal), for each entry width; appending to the chain, opening and preloading are covered by bounded replay")
p("C12", "A bin of hashes finds exactly the hashes put in it, at their index",
  "A bin stays sorted by sort number under any sequence of insertions; inserting puts the new entry at the first position whose sort number is not smaller, and keeps every other entry byte for byte. "
  "Looking a hash up gives the index of the first entry with its sort number and truncated hash, and -1 exactly when there is none, whatever the distribution of sort numbers (equal, clustered, extreme). Looking an index up gives the whole hash of the first entry with that index, and the zero hash exactly when there is none. "
  "Appending entries and then sorting and de-duplicating gives a bin in which every hash appended is found at its smallest index and no other hash is found.",
  ["inputs", "histories"], "every bin content, every entry width, every sequence of insertions of distinct hashes, every list of appended entries with duplicates",
  "no stable test fills a bin; the interpolating search has many branches that depend on the distribution of sort numbers",
  ["indexedhashes3/binbytes.go"],
  [("interpolation search", "indexedhashes3/binbytes.go homeInOnSortNum/findIndexBasedOnSortNum"), ("insertion", "indexedhashes3/binbytes.go insertBinEntry"), ("lookups", "indexedhashes3/binbytes.go lookupByHash/lookupByIndex"), ("sorting and de-duplication", "indexedhashes3/binbytes.go sortAndDeduplicate, flatBinSorter")],
  note="proved for every bin and entry width: the search with its floating-point interpolation (termination is not proved), insertion, both lookups, the order and the swap used for sorting; the sort itself (sort.Sort) and de-duplication are covered by bounded replay")
p("C13", "The binned hash store on disk gives back every hash indexed or appended",
  "A binned hash store that was filled from a file of hashes by either preloader (any number of passes and threads, hashes repeated or not) or by appending hashes not yet in it, in any mixture and with reopenings between (read-write, read-only, or wholly in memory), counts every hash, finds each hash at the first index at which it was given, reports -1 for any other hash, and gives the hash at every index (of a repeated hash: at its first index; a later one may give the zero hash). Bins that outgrow their place in the bin starts file continue in overflow files. "
  "Excluded: a memory grant too small for a single bin, and the all-zero hash as the very first hash (its entry is indistinguishable from an empty one).",
  ["inputs", "histories", "configurations", "schedules"], "every list of hashes, number of bins, entries per bin start, passes and threads",
  "no stable test writes such a store",
  ["indexedhashes3/binfiles.go", "indexedhashes3/hashstore.go", "indexedhashes3/hashstorecreator.go", "indexedhashes3/multipasspreloader.go", "indexedhashes3/singlepass.go", "indexedhashes3/adaptivepass.go", "indexedhashes3/overflowfiles.go"],
  [("bin start and overflow", "indexedhashes3/binfiles.go loadBinFromSlice/saveBinToFiles"), ("append and lookup", "indexedhashes3/hashstore.go"), ("passes and workers", "indexedhashes3/singlepass.go readIn, indexedhashes3/adaptivepass.go")],
  level="exploration", technique=MIXED,
  note="proved: the count of empty bytes that ends a bin; reading and writing the files and the preloaders' workers are covered by bounded replay only")

p("C18", "The stored chain reads back exactly, whatever handle is used",
  "Reading a stored chain (while it is being appended to, or opened read-only) through its block, transaction, input, output and address interfaces gives exactly what was stored: hashes, heights, counts, the n-th child, sources, values, integer fields, parents, and the outputs of an address in order. "
  "A block, transaction, input, output or address reached by stepping forwards or backwards, by height, by hash or by parent and index is the same one; steps outside the chain give the invalid handle, and unknown hashes and failed reads of the files are errors. "
  "(A transaction whose hash repeats an earlier one's is known by its height only; its hash leads to the earlier one.)",
  ["inputs", "histories"], "every stored chain, every handle of every kind",
  "the tests of this package do not compile at this commit; no stable test reads a stored chain",
  ["chainstorage/concretereadablechain.go", "chainstorage/block.go", "chainstorage/transaction.go", "chainstorage/address.go", "chainstorage/handles.go"],
  [("counts from the next parent's first child", "chainstorage/block.go TransactionCount, chainstorage/transaction.go TxiCount/TxoCount"), ("handles", "chainstorage/handles.go"), ("lookup by any handle", "chainstorage/concretereadablechain.go"), ("address outputs", "chainstorage/address.go populate")],
  note="proved for all contents of the files: every reading function over assumed contracts of the word files, hash stores and array store, except the maps of integer fields and the views' construction, which are covered by bounded replay of whole chains")
p("C19", "Appending a block stores exactly its contents, in order, or is an error",
  "Appending the blocks of a chain from either source interface, with transaction indexing delegated or not, leaves in every file exactly what the chain contains: the first transaction of each block, the first input and output of each transaction, source transaction and index of each input, value and address of each output, parents, integer fields, the first and the additional outputs of each address; "
  "indices follow on without gaps, also after reopening and with several chains in one process. A block, transaction, source transaction or address whose hash is not indexed is an error and no reference to it is written. "
  "Gathering hashes beforehand lists every block, transaction and address hash exactly once per occurrence, in order, also after reopening.",
  ["inputs", "histories", "configurations"], "every chain, source interface and way of identifying source transactions; every sequence of appends, syncs and reopenings",
  "the tests of this package do not compile at this commit; no stable test appends a block",
  ["chainstorage/concreteappendablechain.go", "chainstorage/concretehasheschain.go", "chainstorage/concretehasheschainfactory.go", "chainstorage/concreteappendablechainfactory.go"],
  [("txi and txo records", "chainstorage/concreteappendablechain.go appendTxi/appendTxo/appendTxiChi/appendTxoChi"), ("frames, parents and delegated indexing", "chainstorage/concreteappendablechain.go appendTransactionFrame, Store*/Retrieve*"), ("blocks", "chainstorage/concreteappendablechain.go AppendBlock/AppendBlockChi"), ("gathering hashes", "chainstorage/concretehasheschain.go")],
  note="proved: each input, output, transaction frame and delegated index record is written with exactly the expected values at the next index, over assumed contracts of the files and the source chain; the loops of AppendBlock (map of fields, goroutine for the inputs), opening and gathering are covered by bounded replay of whole chains")
p("C20", "Pipeline stages process every task exactly once and restore the sequence",
  "Objects with distinct sequence numbers (none below the first expected) that arrive at a SequencerContainer in any order come out in strict sequence order from the first expected number, each exactly once and as soon as all before it have arrived; when the input is closed the output is closed after everything came out, and a gap left in the sequence is a panic and never a silent loss. "
  "WaitForNotBloated (for a limit of at least one) waits exactly while at least that many objects are waiting for an earlier one, so the stage never jams. "
  "A worker pool of any size processes every task it is sent exactly once, then gives the task the error of its processing, then tells it that it is done, in this order.",
  ["inputs", "schedules"], "every arrival order, every number of objects, limit and number of workers",
  "no test of this package exists; the order of arrival depends on the scheduler",
  ["concurrency/sequencercontainer.go", "concurrency/workerpool.go"],
  [("in order, or put aside", "concurrency/sequencercontainer.go worker"), ("sending what is due, opening the valve", "concurrency/sequencercontainer.go sendNextOut"), ("one worker", "concurrency/workerpool.go worker")],
  note="proved: the sequencer's worker over the traces of its two channels (order, nothing lost, nothing invented, the valve's flag), and a pool worker's protocol towards each task; starting goroutines, the waiting itself and deadlock freedom are covered by an always-run bounded replay with real goroutines")
p("C21", "A bake survives a crash at any point",
  "If the process stops at any point while a tier is being baked into the next one, reopening the cake gives either the state before the bake or the state after it.",
  ["crash points"], "every point between two file operations of a bake",
  "tests never stop in the middle of a bake",
  ["weddingcakeback/donutforestwrite.go", "weddingcakefront/cake.go"], [("files written one after another, then the source truncated", "weddingcakeback/donutforestwrite.go Write")],
  na="function contracts relate the states before and after a call; a stop between two file operations is neither, and the code keeps no log or rename protocol whose invariant a contract could state: the intermediate states are not recoverable by design")
p("C22", "The parallel block pipeline stores the same chain whatever the timing",
  "Reading blocks from a node with any number of threads, putting them in order and storing them gives the same files as storing them one after another.",
  ["schedules"], "every interleaving of the readers and the workers",
  "the tests need a running Bitcoin node",
  ["jobs/intrinsicparallel.go", "corereader2/getparseblocksbinary.go"], [("readers, worker pool, sequencer, storing", "jobs/intrinsicparallel.go")],
  na="the functions start goroutines that talk to a Bitcoin node over HTTP; contracts of this verifier cover one goroutine at a time and there is no node to check against. Its stages are covered one by one: ordering (C20), decoding (C14, C15), one-block views (C17), storing (C19)")

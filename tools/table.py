AI = "static analysis: path-sensitive abstract interpretation (fixpoint over SSA) with "
MAPF = ["gogenerics/gconcurrent/sync/map.go"]
INV = ("Decided for every path of every operation, one step at a time, from the map's documented invariants (published table read-only, an expunged entry is missing from the dirty table, "
       "an unamended snapshot is complete); a step that breaks an invariant is itself reported, so the invariants are inductive. ")
MAPST = [("published snapshot", "table that readers use without a lock", MAPF[0]), ("dirty table", "table with the keys added since, used under the lock", MAPF[0]),
         ("entry", "atomic cell of one key: live, deleted, or expunged", MAPF[0])]

prop("C01", "Compare-and-swap/delete of the concurrent map act exactly on a match",
     "CompareAndSwap and CompareAndDelete of the concurrent map change a key only by replacing, atomically, a present value that compared equal to the caller's old value, and report true exactly when they did so. "
     "They report false only if at some moment of the call the key was absent or its value differed from old.",
     ["inputs", "schedules"], "all keys and values, every interleaving with other operations on the map",
     "The tests call both operations from one goroutine with a matching and a non-matching value; the retry after a lost race, an entry deleted meanwhile and the locked slow path are never exercised.",
     MAPF, [("comparison before the atomic replacement, repeated after each lost race", MAPF[0])],
     AI + "a typestate of the entry's last loaded value",
     INV + "Trusts sync/atomic and the Go memory model; equality is Go's == on the stored values.", state=MAPST)

prop("C02", "The concurrent map touches shared state only under its lock",
     "Every field and table of the concurrent map that is not atomic is read and written only with the map's lock held, and what readers may see without the lock is never modified. "
     "The lock is never taken twice by one call, never held while a caller's function runs, and is released on every return and every panic.",
     ["schedules", "inputs"], "all operations of the map, every interleaving, every panic of a caller's function or of a comparison of uncomparable values",
     "A data race or a lock left behind by a panic needs a particular interleaving or value; the tests run a few concurrent operations with comparable values.",
     MAPF, [("mutex around the slow paths", MAPF[0])],
     AI + "a lockset and publication (escape) domain",
     "Every path of every exported operation, including panicking ones. Trusts sync.Mutex and sync/atomic.", state=MAPST)

prop("C03", "The concurrent map neither loses nor invents keys or values",
     "No operation of the concurrent map drops, shadows or overwrites unseen the value of a key, whatever mix of promotion, copying and deletion happens inside. "
     "An operation reports a value only if that very value was the key's value during the call, and reports a key as absent only if the key was absent at some moment of the call.",
     ["inputs", "schedules", "histories"], "all operations, all states of the two internal tables, every interleaving",
     "The tests store and load a few keys; expunged entries, promotion during a delete, or a store racing with copying need histories no test constructs.",
     MAPF, [("entry life cycle live/deleted/expunged and the promotion/copy of tables", MAPF[0])],
     AI + "a typestate of entries and tables (inductive invariants, absence evidence)",
     INV + "Decides the step-wise invariants and the evidence behind every answer, not linearizability of whole histories.", state=MAPST)

prop("C04", "Range of the concurrent map visits every key present, once",
     "Range of the concurrent map calls the function for each key that stays present during the call, exactly once, with a value the key held, and passes over a key only if it found it absent. "
     "It stops exactly when the function returns false.",
     ["inputs", "schedules", "histories"], "all map contents, every interleaving, every callback",
     "The tests range over a fixed map without concurrent changes, where both internal tables hold the same keys.",
     MAPF, [("promotion of the dirty table before iterating", MAPF[0])],
     AI + "a typestate of the iteration (pending entry, callback answer, completeness of the table)",
     INV + "Go's map iteration is trusted to visit each key once.", state=MAPST)

LRUF = ["library/cachex/lrucache.go"]
LRUST = [("table", "key to entry", LRUF[0]), ("recency list", "keys in order of use, last is the next to go", LRUF[0]), ("entry", "value, expiry instant, number of uses, list element", LRUF[0])]

prop("C05", "LRU cache state is touched only under its lock",
     "Every operation of LRUCacheV2 reads and changes the table, the recency list and the entries only while it holds the cache's lock exclusively. "
     "The lock is never taken twice by one call and is released on every return and every panic.",
     ["schedules", "inputs"], "Get, MGet, Set, MSet, Delete; every interleaving; keys whose comparison or hashing panics",
     "The tests use the cache from one goroutine with string keys; the lock can be missing or left held on any path without a test noticing.",
     LRUF, [("one mutex over table, list and entries", LRUF[0])],
     AI + "a lockset domain", "Every path of every operation of the cache, including panicking ones. Trusts sync.Mutex.", state=LRUST)

prop("C06", "LRU cache: table and recency list agree, and size stays within capacity",
     "At the end of every operation of LRUCacheV2 the table and the recency list hold the same keys, each entry tied to its own list element. "
     "The number of entries never exceeds the capacity given to NewLRUCacheV2, which panics for a capacity below one.",
     ["inputs", "histories"], "all capacities, all sequences of operations",
     "The tests use tiny caches and few operations; an element left behind by one removal path only shows after further evictions.",
     LRUF, [("paired insertion/removal and eviction loop", LRUF[0])],
     AI + "a pairing typestate of table and list and linear inequalities over the number of entries",
     "Inductive over operations: each starts from agreement and a size within capacity and must end so. container/list is trusted.", state=LRUST)

prop("C07", "LRU cache evicts only the least recently used entry, only when over capacity",
     "In LRUCacheV2 a hit and a write make the key the most recently used one, and nothing else changes the order. "
     "An entry is removed only if its key was deleted, it was found expired or used up, or it is the least recently used one while the cache holds more than its capacity; Delete removes every given key that is present.",
     ["inputs", "histories"], "all sequences of operations, keys, capacities",
     "Order is only visible through later evictions; the tests check two or three short sequences.",
     LRUF, [("MoveToFront/PushFront/Back on the recency list", LRUF[0])],
     AI + "a typestate of list positions and linear evidence for each removal",
     "container/list's order is trusted; evidence for each removal must be established on the path that removes.", state=LRUST)

prop("C08", "LRU cache serves the value last set, unexpired and within its usage limit",
     "A hit of LRUCacheV2 returns the entry's own value, found unexpired and below the usage limit, and counts one use when there is a limit; a miss means the key was absent, expired or used up. "
     "A write leaves the key with the given value, an expiry of now plus ttl, and no uses; the i-th result of MGet belongs to the i-th key.",
     ["inputs", "histories"], "all keys, values, ttls, limits, clock readings",
     "Needs every combination of presence, expiry and use count on every path; the tests sleep through one or two of them.",
     LRUF, [("expiry and usage checks on read, reset on write", LRUF[0])],
     AI + "linear inequalities over instants and use counts and an index relation between keys and results",
     "Each answer is compared with what its path established; time.Now is an arbitrary instant; equality of instants may count either way.", state=LRUST)

CHF = ["library/cachex/cache.go"]

prop("C09", "Multi-level Get asks levels in order and writes a hit back to earlier levels",
     "Chain.Get asks the levels in their order, each once, with the caller's key, until one hits, or one fails while ContinueOnReadErr is not set, or all were asked; its answer, value and error are those of the last level asked, and a hit carries no error. "
     "On a hit exactly the levels asked before get the key and the value found, each with its own TTL; a failing write-back changes nothing else.",
     ["inputs", "faults"], "any number of levels, every combination of hits, misses and errors",
     "The tests use two or three levels and one failing level; which levels are asked and written depends on every level's answer.",
     CHF, [("loop over the levels and write-back", CHF[0])],
     AI + "linear invariants relating the loop to the number of levels asked and written",
     "Any number of levels (fixpoint over the loops). Assumes the Chain is not changed during a call.")

prop("C10", "Multi-level writes and deletes reach every level and lose no error",
     "Set and MSet of Chain write the caller's data to every level exactly once with that level's own TTL, and Delete deletes the caller's keys from every level exactly once, whether or not other levels fail. "
     "Every error of a level is part of the error returned; the error is nil when no level failed. MSet and Delete may skip everything when given nothing.",
     ["inputs", "faults"], "any number of levels, every combination of failures",
     "A lost error or a skipped level needs a particular mix of failing and working levels; the tests use one.",
     CHF, [("loop over the levels, errors.Join", CHF[0])],
     AI + "linear invariants over the loop and a flow of every level's error into the result",
     "Any number of levels (fixpoint over the loops). Assumes the Chain is not changed during a call.")

FSF = ["library/cachex/file.go"]
FSST = [("cache file", "one file per key under Dir holding key, value and expiry instant", FSF[0])]

prop("C11", "File cache: every key has one file of its own below Dir",
     "Every operation of FileStore uses, for the same key, the same file, which lies below Dir and is named by a hash of the key, so that no key can name a file outside Dir; different keys use different files. "
     "No operation touches a file while Dir is empty.",
     ["inputs"], "all keys of all key types, all directories",
     "The tests use a few plain string keys; keys with separators or dots, keys of other types that print alike, and an empty Dir are never tried together with several operations.",
     FSF, [("getFilePath", FSF[0])],
     AI + "symbolic path terms compared between operations",
     "A path is a term over Dir and the key; a cryptographic hash is trusted to be collision free when at least 24 of its hex digits are used. Keys that print alike under fmt.Sprint sharing a file is a recorded finding.", state=FSST)

prop("C12", "File cache serves what was stored, unexpired, and tells a miss from an error",
     "FileStore.Get reports a hit only for the value decoded from the key's file, found unexpired, and a miss only if that file did not exist or was expired; a file that cannot be read or decoded is an error. "
     "Set stores the caller's value with an expiry of now plus ttl.",
     ["inputs", "faults"], "all keys, values, ttls, clock readings, and every failure of the file system or of decoding",
     "The tests never make a read fail with anything but a missing file, nor store undecodable content.",
     FSF, [("readFile, Alive, Set", FSF[0])],
     AI + "a typestate of the file read and linear inequalities over instants",
     "os and encoding/json are trusted; whether decoding gives back what was encoded is not decided.", state=FSST)

prop("C13", "File cache replaces files in one step, removes only stale ones, hides no failure",
     "A cache file of FileStore is put in place only by renaming a completely written file, so that no read and no crash finds half an entry; files are removed only if their key is deleted, they were found expired or undecodable, or Purge meets a cache file, and no file without the .cache suffix is removed. "
     "Set, MSet, Delete and Purge report an error exactly when a step failed (a file already missing is no failure), go on with the remaining keys and files, and refuse an empty Dir.",
     ["faults", "crash points", "schedules", "inputs"], "every failure of every file operation, reads and crashes at every moment, any other files below Dir",
     "No test makes a file operation fail, crashes in the middle of a write, or keeps foreign files in the directory.",
     FSF, [("writeFile, readFile, scanExpire, Delete, Purge", FSF[0])],
     AI + "a typestate of the temporary file and a flow of every step's error into the result",
     "rename(2) is trusted to be atomic. Durability after power loss (fsync) is not claimed.", state=FSST)

prop("C14", "File cache cleans in the background one at a time, at most once per cycle",
     "Background cleaning of FileStore runs only while it owns the running flag, which is released on every path, also after a panic, so that no two cleanings run at once and cleaning never stops for good. "
     "It starts only when a GCCycle (one minute if not positive) has passed since the end of the last one.",
     ["schedules", "histories", "faults"], "every interleaving of operations and cleanings, every panic during cleaning",
     "The tests never run two operations at once around the end of a cycle.",
     FSF, [("gc and scanExpire", FSF[0])],
     AI + "a typestate of the running flag and the time of the last cleaning",
     "The order of loads and atomic operations on the two atomics decides; instants are arbitrary.", state=FSST)

prop("C15", "File cache MGet: the i-th answer belongs to the i-th key",
     "FileStore.MGet returns, when it returns no error, as many values and hit flags as there are keys, the i-th of which is what the file of the i-th key says, repeated keys included. "
     "If the file of any key cannot be read or decoded it returns an error.",
     ["inputs", "faults"], "any number of keys, any mix of hits, misses and failures",
     "The tests use two keys that are both present or both absent.",
     FSF, [("MGet", FSF[0])],
     AI + "linear invariants relating the results to the number of keys read",
     "Any number of keys (fixpoint over the loop).", state=FSST)

BITF = ["library/bitset/bitset.go"]
BITST = [("bytes", "the bits, eight to a byte, highest first, guarded by the mutex", BITF[0])]

prop("C16", "Bit sets: bytes used only under their lock, never two locks at once",
     "Every operation of a BitSet reads its bytes with the read or write lock held and changes them with the write lock held; Set, Get, Count, Sub and Not take it once, so they see one state of the set. "
     "No call holds the locks of two bit sets at once, takes a lock twice, or calls the caller's function with a lock held, and every lock is released on every return and panic.",
     ["schedules", "inputs"], "all operations, every interleaving, also of calls that combine the same bit sets in different orders",
     "The tests use bit sets from one goroutine; a race or a deadlock needs two.",
     BITF, [("mutex in every method", BITF[0])],
     AI + "a lockset",
     "Every path of every exported operation, including panicking ones. Trusts sync.RWMutex.", state=BITST)

prop("C17", "Bit sets own their bytes and operations leave their operands unchanged",
     "A bit set never shares its bytes with the caller or with another bit set: New, NewFromHex, Not, Sub, And, Or, Xor and AndNot make new bytes, and what Bytes returns is a copy. "
     "Only Set and Clear change an existing bit set; combining without arguments returns the receiver itself.",
     ["inputs", "histories"], "all operations and arguments, any later change of what was passed in or handed out",
     "Sharing shows only when one side is changed later, and only for some capacities; no test does that.",
     BITF, [("New, Bytes, Not, And, op, Sub", BITF[0])],
     AI + "an ownership (provenance) domain for byte slices",
     "Every byte slice stored in a bit set or returned is traced to its allocation.", state=BITST)

prop("C18", "Bit sets: every operation means the same bit by an offset",
     "Offset o >= 0 is bit 7-o%8 of byte o/8 and a negative one counts from the end: Get and Set report that bit (a missing one as 0), Set grows the set with zeros as needed, gives exactly that bit the value and refuses an offset before the first bit. "
     "Count counts and Sub copies exactly the bits from start to end, both included and clipped to the set; Range visits all bits in order until told to stop; Not, Clear and Size treat every bit; no index leaves the bytes.",
     ["inputs"], "all offsets, ranges and contents of any length, all positions within a byte",
     "Ranges that start and end in the same byte, end on a byte boundary or lie outside the set are a few cases of many; two of them were wrong although the tests passed.",
     BITF, [("Set, Get, Count, validRange, Range, Not, Clear, Size, Sub", BITF[0])],
     AI + "a bit-level domain for bytes and linear inequalities over offsets",
     "Byte expressions are evaluated bit by bit for all eight shift distances, positions are linear terms over the arguments, loops are solved by fixpoint; set sizes up to overflow of int are assumed not to occur.", state=BITST)

prop("C19", "Bit set And, Or, Xor, AndNot combine bits at the same offset only",
     "Every bit that And, Or, Xor or AndNot writes into its result is a bit of the receiver, or a bit of the result so far combined by exactly that operation with the bit of an argument at the same offset. "
     "The result starts from the bits of the receiver and no argument is skipped by a slice of the list of arguments.",
     ["inputs"], "any number of arguments, all contents and lengths",
     "The tests combine a few short bit sets with contents that hide swapped operands.",
     BITF, [("And, op", BITF[0])],
     AI + "a symbolic bit-level domain for bytes",
     "Bits of operands are symbols, results are compared as Boolean combinations. How far And looks (the shortest operand) is not decided.", state=BITST)

MRF = ["gogenerics/gconcurrent/mr/mr.go"]
MRST = [("source, collector, output", "channels of items, mapped values and the result", MRF[0]), ("done", "closed by a cancel", MRF[0]),
        ("panicChan", "room for the one panic that is passed on", MRF[0]), ("pool", "slots for running mappers", MRF[0])]
MRN = "Every goroutine, and every function of the package that the caller's functions can call, is analysed as a thread with all its exits, the caller's functions returning or panicking; "

prop("C20", "Map-reduce passes on a panic of the caller's functions",
     "In ForEach, MapReduce, MapReduceChan, MapReduceVoid, Finish and FinishVoid the caller's functions run in goroutines of their own, no panic of theirs kills the program, and the call does not return normally or report success if one of them panicked: it panics with that value. "
     "No further item is mapped without a look at whether a mapper panicked, the call was cancelled or its context is done.",
     ["schedules", "faults", "inputs"], "every interleaving of generator, mappers, reducer and caller; a panic at any call of any of them",
     "A panic that comes along with the end of the work or with the output is lost only in some interleavings; two such losses were found and repaired here although the tests passed.",
     MRF, [("recover in each goroutine, handing over through a channel, a last look before returning", MRF[0])],
     AI + "a thread-modular typestate of recovered panics",
     MRN + "decided is the order panic handed over, end reported, caller looks. Panics after a cancel or a done context are not claimed to be passed on.", state=MRST)
prop("C21", "Map-reduce maps every item once, with no more workers than chosen",
     "At no time run more mappers than WithWorkers says (at least one, 16 if not chosen), and each item that was taken from the source is given to exactly one call of the mapper, unless the work was stopped. "
     "Finish and FinishVoid hand over every function given and let all of them run at the same time; all options are applied, in their order.",
     ["schedules", "inputs", "faults"], "any number of items, functions, workers and options; every interleaving; panics of mappers",
     "The tests count the results of small runs; one worker too many, a lost slot after a panic or a dropped item needs a particular schedule.",
     MRF, [("executeMappers: pool of slots", MRF[0]), ("Finish, FinishVoid, WithWorkers", MRF[0])],
     AI + "a thread-modular typestate of slots and items",
     MRN + "slots are a buffered channel; its capacity is compared with the number chosen by linear inequalities.", state=MRST)
prop("C22", "Map-reduce closes channels safely and leaves no goroutine waiting",
     "No call of the package, and no Write or cancel that it hands to the caller's functions, ever sends on a closed channel or closes one twice. "
     "Every channel that somebody waits for is closed on every exit of the goroutine in charge, whatever can be written to is read to its end or until all writers give up, and slots are given back, so that no goroutine of the package stays behind once the caller's functions have ended.",
     ["schedules", "faults"], "every interleaving, cancels and panics at any point, contexts done at any time",
     "A send on a closed channel, or a goroutine left behind, needs a cancel or a panic at a particular moment; such a defect was found and repaired here although the tests passed.",
     MRF, [("who closes, who drains", MRF[0])],
     AI + "a thread-modular typestate of channels (who sends, receives, closes, and when)",
     MRN + "decided are who closes what and when, that closes and reads to the end happen on every exit, and that handing over a panic never waits; not that the caller's functions end.", state=MRST)
prop("C23", "Map-reduce returns the reducer's value or the reason of its absence",
     "MapReduce and MapReduceChan succeed only with the value the reducer wrote; after a cancel they return its error, or ErrCancelWithNil if that was nil, after their context is done DeadlineExceeded, and without output ErrReduceNoOutput, which MapReduceVoid does not report. "
     "The value that a mapper writes is passed to the reducer once, and Finish returns an error that one of the functions returned.",
     ["schedules", "inputs"], "every interleaving of output, cancel, context and the end of the work",
     "Which of several things the waiting call sees first depends on the schedule; the tests see one of them.",
     MRF, [("the select that waits for the result, cancel, Write", MRF[0])],
     AI + "a thread-modular typestate of results and recorded errors",
     MRN + "decided is that an error is recorded before those who wait are released, and which value each return hands out.", state=MRST)
SEQF = ["gogenerics/gcontainers/gslice/slice.go", "gogenerics/gcontainers/gmap/map.go", "gogenerics/gcontainers/gset/set.go", "gogenerics/gnumerics/math.go"]
SEQN = "All 39 functions of the four packages are analysed for any element types, lengths and contents; "

prop("C24", "Slice, map and set helpers leave their arguments alone and return new memory",
     "Of the functions of gslice, gmap, gset and gnumerics only Reverse and Shuffle, which return the slice they are given, and Add, Remove and Clear change what they are given; spare capacity counts as part of a slice. "
     "Every other slice or map that they return is new memory shared with no argument, and not nil; only gslice.Copy returns nil, for nil.",
     ["inputs"], "all slices, with any spare capacity, all maps and sets, nil and empty ones included",
     "Sharing shows only when one side is changed later, or when a slice has spare capacity that somebody else uses; no test has that, and Merge wrote there although the tests passed.",
     SEQF, [("Copy, Unique, Merge", SEQF[0]), ("Keys, Values, Copy, Map2Entries", SEQF[1]), ("Items", SEQF[2])],
     AI + "an ownership (provenance) domain for slices and maps",
     SEQN + "every write and append is traced to the memory it goes to, every result to its allocation.")
prop("C25", "Slice, map and number helpers answer for all elements",
     "Equal and EqualWithFunc say true exactly if the lengths agree and all pairs of elements, or the values of all keys, are equal; Index and IndexWithFunc return the first position that fits or -1, Contains and ContainsWithFunc whether there is one; IsSorted and IsSortedFunc whether no element comes before its left neighbour. "
     "Max, Min, MaxCollection, MinCollection, MaxBy and MinBy return the first element that no other one is preferred to, or the zero value for none (NaN excluded); Len is the number of elements.",
     ["inputs"], "all lengths and contents, all comparison functions",
     "The tests use slices of a few elements; a position left out by a loop, or the wrong one of two equivalent elements, shows only for others, and gmap.Equal compared a map with itself although the tests passed.",
     SEQF, [("Equal, Index, Contains, IsSorted", SEQF[0]), ("Equal, Contains", SEQF[1]), ("MaxCollection, MaxBy", SEQF[3])],
     AI + "a record of the comparisons made and linear invariants for the positions they cover",
     SEQN + "an answer has to be backed by a witness, or by comparisons that cover all positions. The caller's comparison functions are taken to be consistent.")
prop("C26", "Slice, map and set builders take over every element once, in order",
     "gslice.Copy and Merge return all elements in their order, Unique and UniqueWithFunc each first occurrence and how many there are; Reverse moves every element to the opposite place and Shuffle only exchanges elements. "
     "Keys, Values, Items and Map2Entries have one element for each entry, gmap.Copy all entries, Entries2Map all pairs, of which later ones win; Add, Remove and Clear do to the set or map what they say.",
     ["inputs"], "all lengths and contents, with repetitions anywhere",
     "The tests build results of a few elements; an element lost or repeated at a boundary of a loop shows only for other lengths or contents.",
     SEQF, [("Copy, Unique, Reverse, Merge, Shuffle", SEQF[0]), ("Keys, Values, Copy, Map2Entries, Entries2Map", SEQF[1]), ("Items, Add, Remove", SEQF[2])],
     AI + "a record of elements read and written and linear invariants for their positions",
     SEQN + "keys not equal to themselves (NaN) are left out of account.")

QF = ["gogenerics/gcontainers/gqueue/fifo.go", "gogenerics/gcontainers/glist/list.go"]
prop("C27", "FIFO queue: elements leave in the order they came, and the count agrees",
     "Push of gqueue appends an element at the end; Pop and Peek give the element at the head, or the zero value and an error exactly when the queue is empty, and only Pop removes it. Len and IsEmpty agree with the number of elements, PeekAll copies them all in order, Clear leaves none. "
     "Gen holds all elements of the slice in order; Iterator moves all elements, in order, into a channel that has room for them all, and closes it.",
     ["inputs", "histories"], "all sequences of operations, all lengths",
     "The tests push and pop a handful of elements; a count that drifts, or a channel too small, shows only after other histories or for longer queues.",
     QF, [("list of elements and number of elements kept beside it", QF[0])],
     AI + "a typestate of the list's ends and linear invariants for the number of elements",
     "Inductive over operations: every operation starts from a queue whose count is right and has to leave one. The list underneath is taken to do what its own property says.",
     state=[("list", "the elements in order", QF[0]), ("length", "number of elements, kept beside the list", QF[0])])
HF = ["gogenerics/gcontainers/gheap/heap.go"]
prop("C28", "Heap: Pop returns an element with none before it, and none is lost",
     "After NewWithData, and after any sequence of Push and Pop, no element of the heap comes before the one above it, for any less that is a strict weak order; Pop therefore returns an element that no other comes before. "
     "Push adds exactly its element, Pop removes exactly the one it returns, and all others stay; no index is out of range (Pop needs a non-empty heap).",
     ["inputs", "histories"], "all lengths, contents and orders, with equal elements; all sequences of operations",
     "The tests sort a few small permutations; a missing comparison at the last element, or a climb that stops too early, needs a particular length and order.",
     HF, [("sift up and down", HF[0]), ("bottom-up construction", HF[0])],
     AI + "a domain with one 'hole' where the order may be broken, the comparisons made, and linear invariants for indices",
     "Every exchange has to move the hole to a place right above or below, backed by comparisons, until nothing is broken; inductive over operations. Other algorithms than sifting are left undecided where they are not built from such exchanges.",
     state=[("data", "the elements; each comes after the one at (i-1)/2", HF[0])])

CRYF = ["library/cryptox/cryptox.go"]
prop("C29", "AES helpers: fresh IV, exact padding, errors instead of panics",
     "CBC and CTR encryption put a 16-byte IV read from the cryptographic random source, its failure not ignored, before the ciphertext of the whole input; CBC and ECB pad with n bytes of the value n (1 to 16) to whole blocks. "
     "Decryption takes off exactly that padding, and reports an error, never a panic, exactly when the encoding, the key, the length or the padding is wrong; encryption panics only when the key is bad or no random bytes can be read. "
     "The text is hex, or unpadded URL-safe base64 if the first optional argument is true, and no function writes to memory of its arguments, spare capacity included.",
     ["inputs"], "all keys, messages, lengths, ciphertexts (damaged ones too) and optional arguments; outcomes of the random source",
     "The tests encrypt and decrypt a few strings; the accepted and rejected paddings, truncated messages, and what happens to the caller's memory need particular bytes, lengths or capacities.",
     CRYF, [("modes, IV and encoding", CRYF[0]), ("padding and its removal", CRYF[0])],
     AI + "records of where IV, data, padding and result lie in which memory, linear invariants for lengths and offsets, and models of the block cipher, its modes and the encodings",
     "The ciphers, modes and encodings of the standard library are taken for what they document. A function that handles bytes in a way the records do not follow is left undecided.")

prop("C30", "Digest helpers hash exactly the bytes given, with the algorithm named",
     "Md5, Sha1, Sha256 and Sha512 return the whole digest, by the algorithm in the name, of exactly the bytes given, in lower-case hex; Fnv1aToUint64 and Fnv1aToUint32 return the FNV-1a sum of exactly the bytes given. "
     "None of them panics or writes to its argument.",
     ["inputs"], "all byte slices",
     "The tests compare a few short inputs; a long input, or one that a special case treats differently, is never tried.",
     CRYF, [("digest helpers", CRYF[0])],
     AI + "a typestate of hash objects: which algorithm was fed with which bytes",
     "The algorithms of the standard library are taken for what they document; a hash computed by hand is left undecided.")

LSTF = ["gogenerics/gcontainers/glist/list.go"]
LSTN = ("Every path of every operation starts from any list that satisfies the invariant, with every way in which its nodes can coincide, so the result is inductive over operations. "
        "Assumes fewer than 2^63 elements and that callers only use the exported parts; copying a list value is out of scope.")
prop("C31", "Doubly linked list: every operation changes the sequence as documented",
     "Insertions put one new element with the given value at the front, the back, or right before or after the mark, and return it; moves take one element to that place; Remove takes it out and returns its value; PushBackList and PushFrontList add copies of all elements the other list had on entry, in order, even when it is the same list. "
     "All other elements keep their order and value, both forward and backward, and Len counts exactly the elements. An element or mark that is not in this list (removed before, or in another list) leaves every list unmodified; Next, Prev, Front and Back give nil exactly where the sequence ends, Range visits every element once in order, and the zero List works as an empty one.",
     ["inputs", "histories"], "all lists, including unused, empty and one-element ones; all places an element can have; all sequences of operations",
     "The tests run sequences on lists of up to four elements; a neighbour that is the sentinel, the mark or the element itself, or an element of another list, combine in more ways than they try.",
     LSTF, [("ring with a sentinel; owner of each element", LSTF[0])],
     AI + "a heap of linked nodes that are told apart lazily (all aliasing cases), compared with the effect on the sequence",
     LSTN, state=[("links", "next and prev are inverse; the sentinel closes the ring", LSTF[0]), ("owner", "the list an element is in, or none", LSTF[0]), ("length", "number of elements", LSTF[0])])
RNGF = ["gogenerics/gcontainers/gring/ring.go"]
prop("C32", "Ring: linking, moving, counting and visiting go around exactly once",
     "Link, for any two elements of the same or different rings, unused zero ones included, makes s follow r, joins the old follower of r to the old predecessor of s, and returns that follower; Unlink removes and returns the n elements after r; New(n) gives a closed ring of n elements, nil for n <= 0. "
     "Next, Prev and Move give the element exactly that many steps away; Len counts every element once and Do calls its function with every value once, in order, from r on; both treat nil as empty. Everything else keeps its neighbours and its value.",
     ["inputs", "histories"], "all rings and elements, including unused and one-element ones; all step counts",
     "The tests use rings of up to ten elements; elements that coincide or were never used combine in more ways than they try.",
     RNGF, [("pairs of neighbour pointers", RNGF[0])],
     AI + "a heap of linked nodes that are told apart lazily, and positions along the walk with linear invariants",
     "Every path with all aliasing cases. A function that takes the number of steps modulo the length first is left undecided; the callback of Do is assumed to leave the ring alone.",
     state=[("links", "next and prev are inverse", RNGF[0])])

RNDF = ["hack/fastrand/fastrand.go"]
prop("C33", "Random numbers lie in the documented range, for every bound",
     "Int, Int31 and Int63 are never negative; Int31n, Int63n, Intn, Uint32n, Uint64n and Uintn are in [0,n) for every n >= 1; Float32 and Float64 are in [0,1), after rounding. "
     "Int31n, Int63n and Intn panic exactly for n <= 0.",
     ["inputs", "schedules"], "all bounds of the argument's type, all values of the random source",
     "There are only benchmarks; a value out of range needs one draw in millions, or a bound near a power of two that no test uses.",
     RNDF, [("reduction of a draw to a range", RNDF[0])],
     "static analysis: interval analysis over SSA with exact integers, bounds relative to the argument, and rounding of floating-point endpoints; path-sensitive analysis of the argument checks",
     "The runtime's generator is taken to give any value of its type. Arithmetic that intervals do not follow is left undecided. How evenly the values are spread is not decided.")
prop("C34", "Shuffle, Perm and Read deal with every position, and only with those",
     "Shuffle calls swap only with indices in [0,n) and draws, for one position after another, from exactly the positions left, so that every order can come out; it panics exactly for n < 0. "
     "Perm returns each of 0..n-1 once, every order possible. Read fills every byte of p with drawn bits, touches no memory outside p, and returns len(p) and nil.",
     ["inputs", "schedules"], "all n, all lengths, all draws",
     "There are only benchmarks; an order that cannot come out, a byte that is always zero, or a write behind the slice shows in no single run.",
     RNDF, [("exchange with a drawn position; fill by words, then bytes", RNDF[0])],
     AI + "a typestate of drawing and exchanging, and linear invariants for positions",
     "Other algorithms than drawing from the positions left are left undecided or reported where what is exchanged is not what was drawn.")
prop("C35", "Results of a batch query: every key once, with its own hit and value",
     "Range, RangeHit and RangeMiss call their function once for every key, every hit, every miss, in the order asked for, with hit and value of the same position, and stop exactly when it returns false. "
     "HitKeys, MissKeys, HitMissKeys and HitMapValues give exactly the keys hit, the keys missed, both, and the hits with their values. The MGet function asks the cache once for exactly the keys given and keeps its answer and error.",
     ["inputs"], "all lengths, all patterns of hits and misses, all points of stopping",
     "The test uses one result of four keys with two hits before two misses.",
     CHF, [("results by position", CHF[0])],
     AI + "a count of positions dealt with, each decided by its own hit, with linear invariants over loops",
     "The three slices are taken to have the same length, as every MGet that does not fail gives them. A result that is built in a way that is not followed is left undecided.")
PWF = ["library/password/password.go"]
BOXF = ["gogenerics/gconstraints/errors.go", "gogenerics/gcontainers/gpool/syncpool.go"]
prop("C36", "Atomic error and pools give back what was put in, whatever its type",
     "AtomicError.Set stores any error that is not nil, whatever the types of the errors stored before, and ignores nil; Load returns the error stored last, nil before the first. "
     "Pool.Get returns a value put in before or one just made by the function given to New; ArrayPool.Get returns a slice put in before or an empty one with room for the size given. No operation panics, also for nil values of interface types; Put hands a value to the pool at most once.",
     ["inputs", "histories", "schedules"], "all errors and values of all types, all sequences of operations",
     "The tests store values of one type; a second type, a nil value or a large size is never tried.",
     BOXF, [("errorBox in an atomic.Value", BOXF[0]), ("type assertions around sync.Pool", BOXF[1])],
     AI + "a record of how a value is packed where it is put in, compared with how it is unpacked",
     "sync.Pool and sync/atomic are trusted. A value packed in another way than directly, in a struct field or behind a pointer is left undecided.",
     state=[("box", "the stored value, always of one concrete type", BOXF[0])])

prop("C37", "Batch queries over levels: every key answered, every level's part right",
     "Chain.MGet asks the levels in their order, each once, for exactly the keys that no level before it answered; it stops only when no key is left, all levels were asked, or a level failed while ContinueOnReadErr is not set, and returns the error of the last level asked. "
     "Every hit reaches all positions of its key in the result, with its value, and nothing else is placed there; the caller's keys are not written to. "
     "The values a level had go back to all levels before it, as they are, each with its own TTL.",
     ["inputs", "histories"], "all numbers of levels, all keys (also repeated), all answers and errors of the levels",
     "The tests use two levels and different keys; repeated keys, a third level or an error in the middle are rarely tried.",
     CHF, [("Chain.MGet and its helpers", CHF[0])],
     AI + "ghost counters for the levels asked, the answers dealt with, the positions filled and the levels written to",
     "A level that answers gives as many values and hits as it was asked for keys, or fails with none. Keys that are collected, or answers that are placed, in another way (not by position lists per key) are left undecided.",
     state=[("levels", "the answers of one level and what was done with each", CHF[0])])

prop("C38", "CheckPassword passes exactly the passwords that flag and lengths ask for",
     "For every flag, CheckPassword returns true exactly for passwords that are at least minLen and, if maxLen is given, at most maxLen[0] bytes long, that consist of printable ASCII characters except space, "
     "that have digits exactly if the flag has N, symbols exactly if it has S and letters exactly if it has LorU, L or U, and that have a lower-case letter if it has L and an upper-case letter if it has U. Bits of the flag above S do not matter.",
     ["inputs"], "all 256 values of the flag, all strings, all limits",
     "The tests try 15 passwords; the boundary characters, most flags and characters behind the point where all classes were seen are never tried.",
     PWF, [("CheckPassword", PWF[0])],
     AI + "one run per value of the flag; the set of classes of characters seen is a ghost, a loop variable that is not counted keeps its constants, and each character splits into the eight ranges of classes",
     "A check that goes over the password more than once, or judges characters by tables or library functions, is left undecided.",
     state=[("seen", "the classes of characters seen so far", PWF[0])])

prop("C39", "StringMarshalJSON writes a JSON string that stands for its argument",
     "For every string, StringMarshalJSON returns one JSON string literal between quotation marks in which every character of the string appears exactly once and in order: as it is, or as an escape that stands for it. "
     "Control characters, quotation marks, backslashes, U+2028 and U+2029 are always escaped, <, > and & if escapeHTML is set, and every byte that is not valid UTF-8 gets out as \\ufffd. The memory of the string is never written to.",
     ["inputs"], "all strings, both values of escapeHTML",
     "The tests log what two calls return and assert nothing.",
     ["library/stringx/stringx.go"], [("StringMarshalJSON", "library/stringx/stringx.go")],
     AI + "ghosts for how far the output stands for the string and for the bounds of the character at hand; every byte below 128 is split into its 128 values and looked up in the tables as they are initialised, longer characters into the seven outcomes of decoding; what is written is compared with the escapes of the character",
     "Output built other than by one buffer or by appending, going over the string by range, and decoding by hand are left undecided.",
     state=[("start", "how far the output stands for the string", "library/stringx/stringx.go")])

prop("C40", "RbTree looks a key up, inserts and counts it where the order says it belongs",
     "Search, Get, Update and Delete of an RbTree follow the order of its comparison function down to the one place where the key can be, and answer (or change, or remove) the node with that key exactly if there is one: Get and Delete return its value and the zero value otherwise, Update and an Insert of a stored key replace its value and return the one before. "
     "Insert of a key that is not in the tree attaches a node with this key and value at the place where later lookups will look for it. Len, Empty and Clear agree: one more for a new key, one less for a removed one, none after Clear.",
     ["inputs", "histories"], "all trees, keys, values and strict total orders, one call at a time",
     "The tests insert, look up and delete a few keys.",
     ["gogenerics/gds/grbt/rbt.go"], [("RbTree", "gogenerics/gds/grbt/rbt.go")],
     AI + "what the comparisons so far say of the key gives the subtree it must be in, as an invariant of the loop that goes down; what is read, changed, attached and answered is checked against it",
     "That rebalancing and unlinking keep the order is not part of it. A search by recursion is left undecided.",
     state=[("RbTree.root", "nodes ordered by key", "gogenerics/gds/grbt/rbt.go"), ("RbTree.len", "number of nodes", "gogenerics/gds/grbt/rbt.go")])

prop("C41", "RbTree keeps its other nodes and their order when it inserts or deletes",
     "However Insert and Delete of an RbTree relink nodes to rebalance the tree, the nodes read from left to right are the same ones in the same order as before, save for the new node of an Insert and the one node with the given key that a Delete removes. "
     "The parent of every node stays the node it is a child of, and the root has none. So no later lookup or traversal loses, repeats or misplaces a key because of rotations or removals.",
     ["inputs", "histories"], "all trees, keys and sequences of calls",
     "The tests compare the traversal of a few small trees.",
     ["gogenerics/gds/grbt/rbt.go"], [("RbTree", "gogenerics/gds/grbt/rbt.go")],
     AI + "nodes are materialised as links are read (a child is the end of the tree or a new node; a node is the root or the left or right child of its parent) and every round of a loop, and every call, is compared link by link with the tree before it: the sequences of nodes and unread subtrees from left to right must agree",
     "That paths have equally many black nodes is not part of it; paths that read the children of the end of the tree are cut. A tree that moves keys between nodes is left undecided.",
     state=[("rbNode links", "left, right and parent of the nodes", "gogenerics/gds/grbt/rbt.go")])

prop("C42", "What lists an RbTree is complete, in order, and picks the right nodes",
     "Keys, Values and Nodes of an RbTree return one element for every node, in the order of the keys, GetIf the values of exactly the nodes whose keys the predicate accepts, in the order of the keys, and none of them changes the tree. "
     "SubTree, LeftSubTree and RightSubTree return a new tree, ordered by the same comparison, that has exactly the keys within the given bounds with their values, an equal key belonging to it exactly if the bound is inclusive. "
     "SubTree panics exactly if its upper bound comes before its lower bound; nothing is said of two equal bounds of which one is exclusive.",
     ["inputs", "histories"], "all trees, keys, bounds and predicates",
     "The tests list a few small trees and take two or three subtrees.",
     ["gogenerics/gds/grbt/rbt.go"], [("RbTree", "gogenerics/gds/grbt/rbt.go")],
     AI + "the function that calls itself is followed for one node, its calls for the children are taken to do what it is to do for them; what goes into the result must be left subtree, node, right subtree, each once, and what is left out must be outside the bounds under every order of the keys that agrees with the comparisons made",
     "Counts on the comparison being a strict order of the keys and on the length being the number of nodes. Ways of going through the tree other than by recursion are left undecided.")

prop("C43", "SkipList finds, changes, inserts and deletes exactly the key it is given",
     "Find and ChangeValue of a SkipList answer for the element whose key equals the one given, and say that there is none only when none has it; FindGreaterOrEqual returns the first element whose key is not smaller. "
     "Insert replaces the value of a key that is there and otherwise adds one element with the key and value between smaller and greater keys on each level that it joins; Delete takes the element with the key, and no other, out of every level that the search meets it on. "
     "GetNodeCount goes up by one with each element added, down by one with each removed, and otherwise stays.",
     ["inputs", "histories"], "all lists, keys, values and heights of elements",
     "The tests insert, find and delete runs of integers and random floats; heights are random.",
     ["gogenerics/gds/gskiplist/skiplist.go"], [("SkipList", "gogenerics/gds/gskiplist/skiplist.go")],
     AI + "each comparison narrows what the key of a node can be to the one given; an answer must follow from a pair of neighbours on the first level that the key lies between, and every link that is written must join smaller to greater keys",
     "Keys are taken to be ordered (not NaN) and the links of the list to be in order before the call. Links to the previous element and the number of levels are not part of it. That a new element is linked on all of its levels is not shown, only that each link written is right.",
     state=[("SkipListElement links", "next of the elements and where each level starts and ends", "gogenerics/gds/gskiplist/skiplist.go")])

prop("C44", "Strings keep their value: no bytes shared with a string are written",
     "unsafex.StringToSlice and SliceToString give exactly the bytes of their argument, as many as its length, with no capacity behind the end of a string. "
     "No function of the module writes to the bytes of a string that it was given, or hands them out as a byte slice. "
     "No string that a function of the module (other than SliceToString itself) returns or keeps shares bytes that are the caller's, that stay in a data structure or a pool, or that are written to after the string was made.",
     ["inputs", "histories", "schedules"], "all inputs and all later calls",
     "The tests look at a string once, right after they got it.",
     ["hack/unsafex/str20.go", "library/stringx/stringx.go", "library/bitset/bitset.go"],
     [("StringToSlice, SliceToString", "hack/unsafex/str20.go"), ("SnakeString, CamelString, StringMarshalJSON", "library/stringx/stringx.go"), ("BitSet.Binary", "library/bitset/bitset.go")],
     "flow analysis over the SSA form of every function of the module with one summary per function: every view without a copy (the builtins of unsafe or a cast of pointers, directly or by a helper) is followed forward to the writes, returns and stores it reaches, and back to the memory it is made over; a write to that memory must not be reachable after the conversion",
     "What is handed to functions outside of the module that are not known to only read is left undecided, and so are strings over bytes of unknown origin. The file for Go before 1.20 is not built here and not analysed.")

na("N01", "Histories of the concurrent map are linearizable",
   "Every history of overlapping operations on one concurrent map can be put in one order that agrees with real time and in which each operation does what it would do alone.",
   ["schedules", "histories"], "all histories of all operations", "Tests run few interleavings.",
   MAPF, [("sync.Map-like table", MAPF[0])],
   "The placement of linearization points of failed and read-only operations depends on operations that run at the same time; the step-wise part that a static argument reaches (every change atomic and on a match, every answer backed by evidence seen during the call, no key lost) is C01 to C04.")

na("N02", "Decrypting or decoding gives back what was encrypted or encoded",
   "For every key, plain text and mode, decrypting with the same key what was encrypted gives back the plain text.",
   ["inputs"], "all keys and texts", "Tests try a few texts.",
   ["library/cryptox/cryptox.go"], [("AES helpers", "library/cryptox/cryptox.go")],
   "Equality of the values computed by the two directions rests on the algebra of AES and its modes in the standard library, not on anything visible in this source; what is (IV, padding, lengths, order of the parts, errors) is C29.")

na("N03", "Random numbers and permutations are uniform",
   "Every value in the documented range, and every permutation, is equally likely.",
   ["inputs"], "all bounds", "Tests draw a few numbers.",
   ["hack/fastrand/fastrand.go"], [("fastrand", "hack/fastrand/fastrand.go")],
   "A distribution over the states of the runtime's generator is no property of single paths or values; the ranges, and that each position is drawn from exactly those left, are C33 and C34.")

na("N04", "Case conversion and decoding of entities give the documented text",
   "SnakeString, CamelString, LintCamelString, HTMLEntityToUTF8, CodePointToUTF8 and SpaceInOne convert every text as their comments describe.",
   ["inputs"], "all strings", "Tests convert a dozen strings.",
   ["library/stringx/stringx.go"], [("stringx", "library/stringx/stringx.go")],
   "The comments give one example each and call the conversion controversial: there is no specification to decide against for all strings, and a static oracle would only restate the loops as they are written. That these functions leave their arguments alone and return strings of their own is C44.")

na("N05", "Skip list and red-black tree operations take logarithmic time",
   "The expected number of steps of a skip list operation, and the worst case of a red-black tree operation, grow with the logarithm of the number of elements.",
   ["inputs", "histories"], "all histories", "Tests do not measure.",
   ["gogenerics/gds/gskiplist/skiplist.go", "gogenerics/gds/grbt/rbt.go"], [("SkipList", "gogenerics/gds/gskiplist/skiplist.go"), ("RbTree", "gogenerics/gds/grbt/rbt.go")],
   "An expected number of steps depends on the random heights, and the worst case of the tree on a black-height invariant over unbounded subtrees through deletion, which the shape domain here (a bounded neighbourhood of the node at hand) cannot carry; order and completeness are C40 to C43.")

na("N06", "Map-reduce and the background cleaner always finish",
   "Every call of map-reduce returns once the caller's functions do, and a cleaning of the file cache ends.",
   ["schedules", "inputs"], "all schedules", "Tests run one schedule.",
   ["gogenerics/gconcurrent/mr/mr.go", "library/cachex/file.go"], [("mr", "gogenerics/gconcurrent/mr/mr.go"), ("cleaner", "library/cachex/file.go")],
   "Liveness depends on the fairness of the scheduler and on how many items flow through bounded channels at run time; the safety part (each channel closed once by its owner, each receive with a matching close, no slot kept after a panic, one cleaner at a time) is C14 and C20 to C22.")

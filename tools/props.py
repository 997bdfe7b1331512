"""The properties, and how each is checked. gen.py writes properties.jsonl and
MANIFEST.json from this list."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, level="exploration",
         note=None, state=None, observe=None, hook=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, level=level, note=note, state=state or [],
                  observe=observe or [], hook=hook, na=na))


# ---------------------------------------------------------------- storage
prop("A01", "A page in use is never handed out, and the free list survives reopening",
     "In any sequence of allocations, frees and reopenings of an index file, an allocated page is never one that is in use, freed pages are handed out again oldest first before the file grows, and what is allocated, what is free and the number of pages are the same after the file is reopened, whatever the size of the file; page number i lies behind i other pages and the one with the free list. Allocating or freeing one page changes no byte of another page in use, and double, misaligned, oversized or overflowing requests are refused without effect.",
     ["histories", "configurations"],
     "all histories of allocate, free, reopen and refused requests, on an ordinary and on a memory-mapped file, including free lists that fill up and wrap around their 512 entries",
     "The tests allocate and free a handful of pages in one opening; the ring of free pages wraps only after hundreds of operations and its persisted form matters only after a reopening in such a state.",
     ["pkg/pagefile/pagefile.go"],
     [{"name": "free page ring and its persisted form", "where": "pkg/pagefile/pagefile.go"}],
     "model-based runtime monitor of page ownership with independent decoding of the stored free list",
     note="Observed on random and boundary histories; the monitor keeps its own owner of each page and its contents and decodes the free list page itself. Not exhaustive.",
     observe=["PageFile.NewPage/FreePage/NewPageFile results", "bytes of the file"])

prop("A02", "The directory of indexes stores every slot's root and metadata exactly",
     "Every slot added to the directory of an index file keeps its own root pointer and metadata, in the order the slots were added, whatever is written to other slots, however many directory pages there are and wherever in a file of any size they lie, and after reopening the file. A write that does not fit, or that is made where there is no slot, is refused and changes nothing.",
     ["histories", "inputs"],
     "all histories of adding slots, writing roots and metadata of any accepted size to any slot, allocating unrelated pages and reopening",
     "The tests write small metadata to a few slots; overlap between slots and pages shows only for particular sizes at particular positions.",
     ["pkg/linkedpage/linkedpage.go"],
     [{"name": "slot layout and page chaining", "where": "pkg/linkedpage/linkedpage.go"}],
     "model-based runtime monitor with independent decoding of the directory pages",
     note="Observed on random histories up to 4 directory pages against a list model and against an independent decoder. Metadata of 253 to 255 bytes is a known finding.",
     observe=["LinkedPage results", "bytes of the directory pages"])

prop("A03", "A memory-mapped file behaves as the ordinary file it maps",
     "Any sequence of reads, writes and seeks on a memory-mapped file, of any size, returns the data, counts, positions and end-of-file of an ordinary file, its in-memory view and the file on disk hold the same bytes after every operation, and no operation crashes the process. What an ordinary file would refuse (negative positions, writes to a file opened read-only) is refused with an error and no effect.",
     ["histories", "inputs"],
     "all sequences of sequential and positional reads and writes, seeks, growth past the mapping, and reopening, on files opened read-write and read-only",
     "The tests do a few writes and reads at the obvious places; remapping bugs and unchecked offsets fault only for particular sizes and positions.",
     ["pkg/mmap/mmap.go"],
     [{"name": "growth by writing to the file and remapping", "where": "pkg/mmap/mmap.go"}],
     "differential runtime monitor against an ordinary file, with the OS memory protection as the fault detector",
     note="Observed on random operation sequences; assumes nobody else truncates the file. Writes of no bytes and seeks past the end (refused by the mapping) are outside the claim.",
     observe=["results of Read, ReadAt, Write, WriteAt, Seek, Bytes", "the file on disk"])

prop("A04", "Storage failures are reported, never swallowed or turned into wrong answers",
     "When any single storage operation fails during indexing or lookup, the call reports an error instead of crashing or succeeding, and it never returns an answer that differs from the one without the failure. Once the failure has passed, lookups on the same file answer as before, and a failed read never leads to the loss of what was indexed earlier.",
     ["fault_sequences", "inputs"],
     "each storage operation of an execution made to fail in turn (reads, writes and seeks), over generated data and lookups",
     "The tests never make storage fail; each of the thousands of operations of a run is a separate point of failure.",
     ["pkg/bptree/bptree.go", "pkg/linkedpage/linkedpage.go", "pkg/pagefile/pagefile.go", "pkg/appendable/index_file.go", "pkg/btree/btree.go"],
     [{"name": "error propagation from every storage call", "where": "pkg/bptree/bptree.go, pkg/linkedpage/linkedpage.go, pkg/pagefile/pagefile.go"}],
     "fault injection at every storage operation with a monitor for swallowed errors and wrong answers", "fault_enumeration",
     note="Every operation index of each generated execution is failed once (quick samples long executions); one place of failure per run, transferring nothing or part of what was asked. What a write fault leaves in the file is not claimed to be indexable further.",
     observe=["errors and answers of the public calls", "count of storage operations"])

# ---------------------------------------------------------------- trees
prop("B01", "An ordered index finds, seeks and iterates exactly what was inserted",
     "After any sequence of insertions an ordered index answers every seek, forward and backward step, find and membership question exactly as the sorted list of the distinct (value, position) keys inserted, with each key's own record, whatever the size of the file it is in. Inserting a key that is already there, or whose value does not have the index's fixed width, is refused and changes nothing.",
     ["histories", "inputs"],
     "all insertion orders and key sets (duplicate values, adversarial lengths and offsets, inline and referenced values), all seek targets between, before and after the keys",
     "The tests insert a few sequences in a fixed order and look up keys that exist; errors at node boundaries need keys that fall between nodes of multi-level trees.",
     ["pkg/bptree/bptree.go", "pkg/bptree/node.go", "pkg/pointer/referenced_value.go"],
     [{"name": "search path, splits and iterator rollover", "where": "pkg/bptree/bptree.go"}],
     "reference-model monitor of every lookup over random histories",
     note="Observed for trees up to several thousand keys and 4 levels in random, ascending, descending and clustered order; the oracle is a sorted slice.",
     observe=["Insert, Find, Contains and iterator results"])

prop("B02", "A stored ordered index is a balanced search tree that owns its pages",
     "At every moment between insertions the pages of an ordered index form a tree with all leaves at one depth, no empty node and no node larger than its page, keys strictly ascending and within the bounds their ancestors set, and no page shared or lost. Opened afresh from its bytes, the index answers as it did before; all this in a file of any size.",
     ["histories", "inputs"],
     "all histories of insertions into one or several indexes that share a file, with node contents of all encoded sizes up to the page size",
     "The tests inspect no stored page after splits; an overfull node or a stale page damages data only at particular sizes.",
     ["pkg/bptree/bptree.go", "pkg/bptree/node.go"],
     [{"name": "node splitting and encoding", "where": "pkg/bptree/bptree.go, pkg/bptree/node.go"}],
     "on-disk invariant monitor with an independent decoder after insertions",
     note="Invariants are evaluated on the bytes by a decoder sharing no code with the repository, after every insertion for small trees and at intervals for large ones.",
     observe=["bytes of the index file"])

prop("B03", "The vector store returns every stored vector bit for bit",
     "After any sequence of insertions, looking up an identifier in the vector store returns exactly the vector and pointer stored under it, bit for bit including negative zero, infinities and not-a-number, and an identifier that was not stored is reported missing, whatever the size of the file. A repeated identifier or a vector of another dimension is refused and changes nothing, and a dimension that does not fit in a page is refused and not stored in part.",
     ["histories", "inputs"],
     "all insertion orders and identifier sets, dimensions from 1 to beyond what a page holds, all float32 bit patterns",
     "The tests store a few small integers as vectors in ascending order.",
     ["pkg/btree/btree.go", "pkg/btree/node.go"],
     [{"name": "node encoding and splitting", "where": "pkg/btree/btree.go, pkg/btree/node.go"}],
     "reference-map monitor with bit-exact comparison and stored-page decoding",
     note="Observed on random histories for dimensions 1 to 400; the oracle is a map.",
     observe=["Insert and Find results"])

# ---------------------------------------------------------------- indexing
prop("B04", "An index takes space in proportion to what it holds",
     "Whatever the order of insertion and the steps in which it grew, an ordered index or vector store has at most three times the pages its entries need (and one or two per level), is no deeper than such pages allow, and the directory takes a new page only when the last is full. A file grows only when none of its pages is free, so it never has more pages than were in use at once.",
     ["histories", "inputs"],
     "all insertion orders, key shapes and sizes, numbers of indexes and synchronizations, and all histories of allocating and freeing pages",
     "The tests look at no file size; a bad split still answers every query and only shows in the space of large indexes.",
     ["pkg/bptree/bptree.go", "pkg/btree/btree.go", "pkg/linkedpage/linkedpage.go", "pkg/pagefile/pagefile.go"],
     [{"name": "splits in the middle, free pages first", "where": "pkg/bptree/bptree.go, pkg/btree/btree.go, pkg/pagefile/pagefile.go"}],
     "runtime monitor of stored size against the entries decoded from it",
     note="A third full is a loose bound (splits leave halves), so that another sound way to split is no alarm.",
     observe=["number of pages of trees, directory and file"])

prop("C01", "A JSONL index holds exactly the values of the file's complete lines",
     "For every JSON Lines file, each string, number, boolean and null reachable through objects in a complete line appears exactly once in the index for its dotted path and type, and nothing else does. Each entry's key range covers exactly that value in the file (decoding it gives the indexed key), and its record range is exactly the line it is on, however large the file is.",
     ["inputs"],
     "all files of valid JSON objects: nesting, escapes, any whitespace, all number forms, empty keys, keys with dots, arrays, mixed types per field, line counts from none to thousands, with or without a final newline",
     "The tests index a few small files in one formatting and mostly look at counts; pointer errors depend on formatting and position.",
     ["pkg/handlers/jsonl.go", "pkg/appendable/index_file.go"],
     [{"name": "token walk with input offsets", "where": "pkg/handlers/jsonl.go"}],
     "offline checker: generator that knows every value's byte range against an independent decoding of the index file",
     note="The expected entries come from the generator's syntax tree, not from parsing; the index is read by an independent decoder. Values whose keys repeat within one object are excluded.",
     observe=["bytes of the index file after synchronization"])

prop("C02", "A CSV index holds exactly the fields of the file's complete lines",
     "For every CSV file with a header line, each field of each complete line appears exactly once in the index for its column and inferred type (number, boolean, empty or text), and nothing else does. Each entry's key range covers exactly that field as written, quotes included, and its record range is exactly its line, however large the file is.",
     ["inputs", "histories"],
     "all files of well-formed lines: quoting, escaped quotes, empty fields, short lines, CR LF endings, any header, one or several synchronizations",
     "The tests use a few unquoted rows indexed at once.",
     ["pkg/handlers/csv.go"],
     [{"name": "field positions and type inference", "where": "pkg/handlers/csv.go"}],
     "offline checker: generator with known field ranges against an independent decoding of the index file",
     note="Fields that contain line breaks and blank lines are refused by design and outside the generator; column names are distinct.",
     observe=["bytes of the index file after synchronization"])

prop("C03", "Indexing in any number of steps gives the index of indexing at once",
     "However a growing file is cut into synchronizations, and whether or not the index file is closed and reopened between them, the resulting index has the same entries, types, totals and counts as indexing the whole file once. A line is indexed exactly once and only when its newline has arrived, and synchronizing again with nothing new changes nothing; a data file shorter than what was indexed is refused without effect.",
     ["histories", "inputs"],
     "all ways to cut JSON Lines and CSV files into growing prefixes, cuts in the middle of lines, tokens and characters included, with and without reopening, in memory and memory-mapped",
     "The tests append once or twice at line boundaries.",
     ["pkg/handlers/jsonl.go", "pkg/handlers/csv.go", "pkg/appendable/index_file.go"],
     [{"name": "read offset kept in the file metadata", "where": "pkg/handlers/jsonl.go, pkg/handlers/csv.go"}],
     "differential history monitor: stepwise against one-shot indexes, compared entry by entry by an independent decoder",
     note="Observed on random files and cut sequences.",
     observe=["bytes of the index file after each synchronization"])

prop("C04", "A rejected line leaves everything before it indexed and nothing of it",
     "When a line cannot be indexed, synchronization reports an error, never crashes, keeps every earlier line indexed and counted, and indexes nothing of the rejected line. Once the line is corrected, synchronization carries on and gives the index of the corrected file.",
     ["inputs", "histories"],
     "all kinds of bad lines (syntax errors at every position, wrong root types, names that are too long, bad quoting, too many fields) at any line, any number of retries",
     "The tests check that an error is returned for one or two bad inputs.",
     ["pkg/handlers/jsonl.go", "pkg/handlers/csv.go"],
     [{"name": "validation before indexing, progress kept on error", "where": "pkg/handlers/jsonl.go, pkg/handlers/csv.go"}],
     "mutation of generated lines with a history monitor against the index of the good prefix and of the corrected file",
     note="Whether a mutated line must be rejected is decided by an independent rule (Go's encoding/json validity, encoding/csv for CSV).",
     observe=["errors of synchronization", "bytes of the index file"])

prop("C05", "The catalogue names every field and type once, with true totals",
     "The index file lists each (field, type) pair that occurs in the data exactly once, in order of first appearance, with the fixed key width of its type, and the file metadata states the format, version, bytes consumed and number of records. For JSON Lines the total length of each (field, type) pair equals the sum over its entries: the length of each text or number as written, one per boolean, nothing for null, and the length of each n-gram. Opening a file with another version, or a JSON Lines index as CSV or the reverse, is refused without changing it.",
     ["inputs", "histories"],
     "all data files and histories of synchronization, including catalogues over many pages; all version and format bytes",
     "The tests look at one or two fields of a fresh index.",
     ["pkg/appendable/index_file.go", "pkg/appendable/appendable.go"],
     [{"name": "find-or-create over the directory", "where": "pkg/appendable/index_file.go"}],
     "offline checker of the stored catalogue against totals computed by the generator",
     note="Observed on random files with up to some hundred fields, across reopenings.",
     observe=["bytes of the directory pages", "Metadata, IndexFieldNames, Indexes, IsEmpty"])

prop("C06", "A searchable field's postings are exactly the n-grams of its values",
     "For every field marked searchable, the one, two and three letter indexes hold exactly one entry for each occurrence of such an n-gram in each of its string values, with the line as its record and its position in the value telling occurrences apart, and fields not marked have none. Values of other types in a searchable field are indexed as usual and produce no n-grams.",
     ["inputs"],
     "all strings: ASCII and Unicode, combining and compatibility characters, control characters, escapes, long strings; several searchable fields, nested ones included",
     "The tests search one or two English words.",
     ["pkg/handlers/jsonl.go", "pkg/ngram/tokenizer.go"],
     [{"name": "n-gram insertion for search headers", "where": "pkg/handlers/jsonl.go"}],
     "offline checker of the stored postings against an independently written tokenizer model",
     note="Strings whose compatibility decomposition makes them longer than their JSON text are a known finding and kept out of the generator.",
     observe=["bytes of the index file after synchronization"])

prop("C07", "Metadata and number encodings round-trip, and bad bytes are refused",
     "Every file description, index description and variable-length number is read back exactly as it was written, in exactly the size predicted for it, whatever was read into the same place before. Truncated descriptions are refused with an error, and damaged ones never crash the reader.",
     ["inputs"],
     "all values of every field of the descriptions, all 64-bit numbers, all truncations and random damage",
     "The tests round-trip one or two values.",
     ["pkg/appendable/appendable.go", "pkg/encoding/sizeVarint.go"],
     [{"name": "binary codecs", "where": "pkg/appendable/appendable.go, pkg/encoding/sizeVarint.go"}],
     "round-trip and hostile-input monitor with an independent codec",
     note="Boundary values of every width plus random values; damage is truncation at every byte and random bytes.",
     observe=["MarshalBinary, UnmarshalBinary, SizeVarint results"])

prop("C08", "The command-line indexer indexes completely and never harms the data file",
     "Running the command-line tool on a data file leaves an index file that describes exactly the complete lines of the data, in one run or over any series of runs as the file grows, and exits successfully. It never changes the data file, on bad input it exits with an error and leaves the index of the good lines, and where there is no room for the whole index it does not report success.",
     ["histories", "inputs", "configurations"],
     "all series of runs over growing files, JSON Lines and CSV, with and without search fields, empty files and bad lines",
     "No test runs the command-line tool.",
     ["cmd/main.go", "pkg/mmap/mmap.go"],
     [{"name": "memory-mapped index opened and synchronized per run", "where": "cmd/main.go"}],
     "end-to-end runtime monitor: the real binary on real files, its index decoded independently",
     note="Observed on random files and run series.",
     observe=["exit status", "index and data files after every run"])

prop("C09", "Independent indexes do not disturb each other when used concurrently",
     "Index files built or read at the same time by different threads, each through its own handles, come out as if they had been built alone, and their use is free of data races. Many readers of one finished file, each with its own handle, all get the same answers.",
     ["schedules"],
     "all interleavings of independent builders and readers",
     "The tests run one index at a time and without the race detector.",
     ["pkg/handlers/jsonl.go", "pkg/ngram/tokenizer.go", "pkg/bptree/bptree.go"],
     [{"name": "no shared mutable state between instances", "where": "pkg/..."}],
     "Go race detector and differential monitor under concurrent load",
     note="Interleavings are those the scheduler and injected yields produced; the race detector reports unsynchronized pairs even where the outcome was right.",
     observe=["race reports", "bytes of the index files"])

prop("C10", "Appending a record costs the same however much is already indexed",
     "The storage work of indexing one more line grows at most with the depth of its indexes: it does not grow in proportion to the records already indexed, and synchronizing without new data does no work that depends on the size of the index. The index file grows in proportion to the entries it holds.",
     ["histories", "inputs"],
     "all sizes of existing index and all shapes of appended record",
     "The tests measure no cost; the project states constant-time appends as its primary goal.",
     ["pkg/bptree/bptree.go", "pkg/handlers/jsonl.go", "pkg/pagefile/pagefile.go"],
     [{"name": "one root-to-leaf path per insertion", "where": "pkg/bptree/bptree.go"}],
     "runtime monitor counting storage operations and pages per append",
     note="Bounds are on counted operations, not time: per append against the tree's depth, and pages per entry.",
     observe=["storage operations per synchronization", "file size"])

prop("C11", "The indexer's diagnostics are true and change nothing",
     "Asking the indexer for a benchmark file, timings, debug output or a profile, in any combination, changes no byte of the index it writes and nothing of the data file. The benchmark file of a JSON Lines file has exactly one line per newly indexed record, giving the time passed (never decreasing), the end of that record in the data file and the number of pages the index then has; timings asked for cover no more than the run, and the parts no more than the whole.",
     ["histories", "inputs", "configurations"],
     "all series of runs over growing files, with every combination of diagnostic options",
     "The tests use no diagnostic option.",
     ["pkg/appendable/index_file.go", "pkg/handlers/jsonl.go", "cmd/main.go", "pkg/pagefile/pagefile.go"],
     [{"name": "benchmark callback per record", "where": "pkg/appendable/index_file.go SetBenchmarkFile"}],
     "differential runtime monitor with and without diagnostics; online monitor of benchmark lines",
     note="The size of the index is compared at every benchmark line in the library runs and at the last one in the tool's.",
     observe=["benchmark lines as they are written", "index bytes of both runs", "log output"])

prop("C12", "The same data always gives the same index file, byte for byte",
     "Indexing a data file with the same search fields always writes the same bytes: however often it is done, in one step or several, in memory or in a mapped file, whatever was indexed before or is indexed at the same time (even if that failed), out of whatever buffer, and in whatever process, environment, place and file times.",
     ["inputs", "histories", "configurations", "schedules"],
     "all data files, divisions into steps and surroundings",
     "The tests index once and look at parts; the project names deterministic index updates as a primary goal.",
     ["pkg/handlers/jsonl.go", "pkg/handlers/csv.go", "pkg/ngram/tokenizer.go", "pkg/appendable/index_file.go"],
     [{"name": "no dependence on map order, time or chance", "where": "pkg/handlers, pkg/ngram"}],
     "differential runtime monitor: bytes of repeated runs in different surroundings",
     note="Dependence on a random order is seen with the probability that a few repetitions differ.",
     observe=["bytes of the index files"])

prop("C13", "Reading an index writes nothing, and readings may take turns",
     "Opening an existing index and reading it in any way (its metadata, fields, directory, lookups and iterators over its ordered indexes, vectors) performs no write on its storage, so a read-only file is enough; being refused because of another format writes nothing either. Any number of iterators and lookups over one handle may take turns in any order and each sees exactly what it would alone.",
     ["histories", "inputs", "schedules"],
     "all indexes and all interleavings, within a thread, of readings of one handle",
     "The tests read with one iterator at a time and do not watch for writes.",
     ["pkg/appendable/index_file.go", "pkg/bptree/bptree.go", "pkg/linkedpage/linkedpage.go", "pkg/pagefile/pagefile.go", "pkg/btree/btree.go"],
     [{"name": "every read seeks first", "where": "pkg/bptree, pkg/linkedpage"}],
     "runtime monitor counting writes; readings compared with an independent decoding",
     note="Interleavings are drawn at random, at the granularity of iterator steps and calls.",
     observe=["storage writes", "entries read"])

prop("C14", "A file that is no index to go on with is refused and left as it was",
     "Opening a file as an index succeeds only where it is empty, blank, or an index of the version and format asked for. Anything else is refused with an error and not a byte of it is written: an index of the other format, of another version or an unknown format, with metadata cut off or a free list that names no pages, a file that is no whole number of pages (an index cut short, bytes after it, a text, a few zeros), a text of any length. Data shorter than what an index already covers is refused, too, and leaves the index as it was. The command-line tool exits with an error and changes neither file in all these cases, where the index named is the data file itself under any name, and where it is called without a format, an index or a data file, with two, with one that does not exist or with a folder. The index that such a file was made from is continued as ever.",
     ["inputs", "histories", "configurations"],
     "all indexes, damages of these kinds, foreign files of any length, and wrong uses of the command line",
     "The tests open good indexes, and one of the other format without looking at what became of it.",
     ["pkg/appendable/index_file.go", "pkg/appendable/appendable.go", "pkg/pagefile/pagefile.go", "pkg/handlers/jsonl.go", "pkg/handlers/csv.go", "cmd/main.go"],
     [{"name": "size, free list, version, format and coverage are checked before anything is written", "where": "pkg/pagefile/pagefile.go NewPageFile, pkg/appendable/index_file.go NewIndexFile, Synchronize of the handlers"}],
     "runtime monitor counting writes and comparing files before and after each refusal, library and command-line tool",
     note="Damages other than those listed (an index whose trees were overwritten, data replaced by other data of at least the same length) cannot be told from good files by the format and are not claimed.",
     observe=["errors and exit status", "storage writes", "bytes of both files"])

# ---------------------------------------------------------------- tokenizers
prop("D01", "Tokenizing text yields exactly its n-grams, deterministically",
     "For every text and length from one to three, the tokenizer yields exactly the lower-cased runs of that many letters or digits that follow each other within a word, in order, with each token's position and length in the decomposed text, and never crashes. Shuffling tokens keeps exactly the same tokens and the same input always gives the same order.",
     ["inputs"],
     "all texts: ASCII, Unicode, combining marks, compatibility characters, invalid UTF-8, control characters, very long words",
     "The tests tokenize a few words.",
     ["pkg/ngram/tokenizer.go"],
     [{"name": "normalization and windowing", "where": "pkg/ngram/tokenizer.go"}],
     "runtime monitor against an independently written model",
     note="Observed on random and boundary strings; Unicode decomposition itself is taken from golang.org/x/text.",
     observe=["BuildNgram and Shuffle results"])

prop("D02", "The indexer and the client split text into the same n-grams",
     "For every text, the n-grams the client searches for are the same, with the same multiplicity, as those the indexer stored for that text, so a field can always be found by its own value.",
     ["inputs"],
     "all texts of well-formed Unicode, all ranges of lengths from one to three",
     "Each side is tested alone on a few English words.",
     ["pkg/ngram/tokenizer.go", "src/ngram/tokenizer.ts"],
     [{"name": "same normalization on both sides", "where": "pkg/ngram/tokenizer.go, src/ngram/tokenizer.ts"}],
     "differential runtime monitor of the two tokenizers",
     note="Observed on random and boundary strings; the two Unicode tables may be of different versions, so characters assigned after the older are left out.",
     observe=["tokens of both implementations"])

# ---------------------------------------------------------------- vectors
prop("E01", "The double-ended queue always yields its nearest and farthest items",
     "After any sequence of insertions, removals at either end and updates, the queue's smallest and largest are the true minimum and maximum of exactly the items it should hold, and removing from either end yields them in order. A copy and its original never affect each other, and operations on an empty queue report an error.",
     ["histories", "inputs"],
     "all operation sequences, with ties, equal identifiers and special distances",
     "The tests push and pop short sequences.",
     ["pkg/hnsw/heap.go"],
     [{"name": "min-max heap order", "where": "pkg/hnsw/heap.go"}],
     "model-based runtime monitor against a sorted multiset",
     note="Observed on random operation sequences.",
     observe=["results of every queue operation"])

prop("E02", "A vector search returns stored vectors with true distances, nearest first",
     "A search for the k nearest vectors returns at most k distinct identifiers that were inserted, each with its true distance to the query; while the collection is no larger than the neighbour limit the result is exactly the k nearest, and for larger ones nearly all of them are found. A query or vector of the wrong dimension is refused without effect, and so is a graph without dimensions.",
     ["inputs", "histories"],
     "all insertion orders, dimensions, parameters and queries, with duplicate and collinear points",
     "The tests search a few tiny graphs.",
     ["pkg/hnsw/hnsw.go"],
     [{"name": "layered greedy search", "where": "pkg/hnsw/hnsw.go"}],
     "runtime monitor against exhaustive search",
     note="Exactness is asserted only where the structure guarantees it; recall for larger sets is asserted as a floor on an average over seeded runs.",
     observe=["search results"])

prop("E03", "A vertex's neighbour lists hold its links by level and flush to the limit",
     "Whatever links are added to a vertex, its neighbours at each level are exactly those linked at that level or above within its limits, and the vertex's top level is the highest it was given. Inserting a vector links it both ways at every level it shares with others; a vertex only ever loses its farthest links, and only those beyond the neighbour limit, to which every list linked at the lowest level is cut when a vector of that level alone is inserted. Inserting and searching never leave a link to an identifier that was not inserted, and copies of neighbour lists are independent.",
     ["histories", "inputs"],
     "all sequences of link additions and reads at any level, and all graphs built by insertion",
     "The tests add one or two links.",
     ["pkg/hnsw/friends.go", "pkg/hnsw/hnsw.go"],
     [{"name": "per-level neighbour queues", "where": "pkg/hnsw/friends.go"}],
     "model-based runtime monitor of neighbour lists and of the built graph",
     note="Observed on random sequences; the degree limit is not claimed for vertices reached by pruning.",
     observe=["neighbour lists after each operation"])

prop("E04", "Every vector's neighbourhood is stored and found under its own identifier",
     "Every insertion through the vector page manager stores the vector and its neighbourhood so that a lookup by the vector's identifier returns them as they were, including vectors and neighbourhoods that are equal to others.",
     ["histories", "inputs"],
     "all sequences of vectors, duplicates included",
     "The tests add two or three vectors.",
     ["pkg/vectorpage/manager.go"],
     [{"name": "node and neighbourhood trees", "where": "pkg/vectorpage/manager.go"}],
     "runtime monitor: stored entries read back and compared with the graph",
     note="Observed on random vector sequences.",
     observe=["entries of the two stored trees"])

# ---------------------------------------------------------------- client
prop("F01", "A query returns exactly the records that satisfy it",
     "For every indexed data set and every query of one or more conditions (<, <=, ==, >=, >) on a field, the client returns every record whose field has the condition value's type and satisfies all conditions, and no other record, once for each such value, whatever the order asked for.",
     ["inputs", "configurations"],
     "all data sets and conditions: values at, between and beyond those stored, duplicates, all types, multi-level indexes, both directions",
     "The tests mock the index or run a handful of queries on one small file.",
     ["src/db/database.ts", "src/bptree/traversal.ts", "src/bptree/bptree.ts", "src/bptree/node.ts"],
     [{"name": "seek and scan per operation", "where": "src/db/database.ts"}],
     "runtime monitor against evaluation of the query over the parsed data file",
     note="Index files are built by the real indexer. Numbers below zero are ordered by their stored bits (known finding) and compared accordingly.",
     observe=["records yielded by the client"])

prop("F02", "Results come in the order asked for and stop at the limit",
     "Results of a query are in ascending order of the field by default and in descending order when asked, never out of order, and a limit of n returns exactly the first n of the unlimited results. A consumer that stops early costs no further requests.",
     ["inputs", "configurations"],
     "all data sets, conditions, directions and limits, zero and limits beyond the result included",
     "The tests check one order and no limit against a real index.",
     ["src/db/database.ts"],
     [{"name": "iteration direction and early return", "where": "src/db/database.ts"}],
     "runtime monitor of result order against the parsed data file",
     note="Order among equal values is not claimed beyond being consistent between limits.",
     observe=["records yielded by the client", "range requests"])

prop("F03", "Returned records are the data file's own, with the selected fields",
     "Every record a query returns equals the JSON on its line of the data file, of any size, and with a selection it has exactly the selected top-level fields that the record has, unchanged.",
     ["inputs"],
     "all records (nesting, Unicode, escapes, extreme numbers) and all selections",
     "The tests select from one fixed file with mocks.",
     ["src/db/database.ts", "src/db/query-lang.ts", "src/file/data-file.ts"],
     [{"name": "record range read and projection", "where": "src/db/query-lang.ts"}],
     "runtime monitor against the parsed lines of the data file",
     note="Selecting a nested field by its dotted name projects nothing and is outside the claim.",
     observe=["records yielded by the client"])

prop("F04", "A text search returns each matching record once, with its true score, best first",
     "However large the files are, a search returns exactly the records whose field shares at least one n-gram with the searched text, each once, in order of non-increasing score, and each score is the documented relevance formula over the n-grams of the field and of the text. Searching a field that was not indexed for search is refused.",
     ["inputs"],
     "all data sets, searched texts and n-gram ranges",
     "The tests search with mocks.",
     ["src/db/database.ts", "src/ngram/table.ts", "src/bptree/bptree.ts"],
     [{"name": "term frequency scan and score table", "where": "src/db/database.ts"}],
     "runtime monitor against scores computed from the data file by an independent model",
     note="Scores are compared to within rounding. Records of equal score may come in any order.",
     observe=["records and scores yielded by the client"])

prop("F05", "Queries that run at the same time do not affect each other",
     "Any number of queries, searches and metadata reads running concurrently on one client return what each would return alone, in whatever order their requests are answered.",
     ["schedules", "inputs"],
     "all interleavings of responses to the range requests of concurrent queries",
     "The tests run one query at a time with immediate answers.",
     ["src/db/database.ts", "src/file/index-file.ts", "src/file/multi.ts", "src/resolver/cache.ts"],
     [{"name": "per-query state and shared page promises", "where": "src/db/database.ts, src/file/index-file.ts"}],
     "runtime monitor under injected response reordering",
     note="Interleavings are drawn by a seeded scheduler that chooses which outstanding request to answer next; the number of distinct answer orders is reported.",
     observe=["records yielded per query", "order of answered requests"])

prop("F06", "Multipart responses are decoded exactly, however they are chunked",
     "Every well-formed multipart byte-range response is decoded into its parts with their exact bytes and headers, however the network cuts it into chunks, whatever its boundary, header case and part contents. A truncated or malformed response is reported as an error and never hangs or yields a wrong part.",
     ["inputs", "schedules"],
     "all part lists, boundaries and header spellings, all ways to chunk the body, all truncations",
     "The tests decode two fixed bodies.",
     ["src/resolver/multipart.ts"],
     [{"name": "ring buffer parser", "where": "src/resolver/multipart.ts"}],
     "runtime monitor over generated bodies and chunkings",
     note="Bodies up to some tens of kilobytes, chunk sizes from one byte; every truncation point of small bodies.",
     observe=["parts yielded, errors"])

prop("F07", "Every way a server may answer range requests gives the same bytes",
     "Requesting ranges from a server that answers with multipart ranges, a single range, coalesced or reordered parts, or only ever one range at a time gives exactly the requested bytes of the file in the requested order, cut off at the end of the file. Error statuses, missing ranges and a file whose length differs from the expected are reported as errors and never taken for data. A client told that its server knows only single ranges asks for one range at a time; otherwise it asks for all of them in one request first.",
     ["inputs", "configurations", "fault_sequences"],
     "all range lists and all server behaviours allowed by the protocol, plus error statuses and wrong or missing parts",
     "The tests cover no server at all.",
     ["src/resolver/range-request.ts", "src/file/data-file.ts"],
     [{"name": "range request and response matching", "where": "src/resolver/range-request.ts"}],
     "runtime monitor against a simulated server with hostile behaviours",
     note="Against a local HTTP server and a stand-in for fetch that record every request.",
     observe=["bytes returned, errors, requests seen"])

prop("F08", "The client reads index files exactly as the indexer wrote them",
     "Every index file the indexer writes is read by the client with the same catalogue, types (under their own names), widths, totals, record count and ordered entries, whatever the number of fields and records and the size of offsets. Variable-length numbers up to the largest exact integer are read and written alike on both sides. A description of a format the client does not know, or cut short, is refused.",
     ["inputs"],
     "all data sets (many fields over several directory pages, multi-level indexes), all integers up to 2^53",
     "Each side is tested alone against fixed bytes.",
     ["src/bptree/node.ts", "src/file/multi.ts", "src/file/meta.ts", "src/util/uvarint.ts", "pkg/bptree/node.go", "pkg/linkedpage/linkedpage.go"],
     [{"name": "same binary format on both sides", "where": "src/bptree/node.ts, pkg/bptree/node.go"}],
     "cross-implementation monitor: index written by the indexer, read by the client, compared entry by entry",
     note="Compared with an independent decoding in the check. The client does not support CSV.",
     observe=["headers, metadata, entries read by the client"])

prop("F09", "A failed request is reported, and the next attempt succeeds",
     "If any one range request of a query fails, that query reports the failure instead of returning wrong or partial results as complete, and the same client answers correctly once requests succeed again.",
     ["fault_sequences", "inputs"],
     "each request of each query made to fail in turn, on fresh and on used clients",
     "The tests never make a request fail.",
     ["src/db/database.ts", "src/file/index-file.ts", "src/file/multi.ts", "src/resolver/cache.ts"],
     [{"name": "failed reads are not remembered", "where": "src/db/database.ts, src/file/multi.ts, src/resolver/cache.ts"}],
     "fault injection at every range request with a monitor of results before and after", "fault_enumeration",
     note="Every request index of each generated query is failed once; one failure at a time.",
     observe=["errors and records of the query and of its retry"])

prop("F10", "Invalid queries are refused, valid ones accepted",
     "Query validation accepts a query exactly when its conditions name existing fields with values of a type the field has and known operations, its order names the first condition's field and a known direction, its selection names existing fields and is not empty, and its search uses whole lengths from one to three in order on a searchable field; it refuses anything else with an error. The client itself refuses unknown fields, types the field lacks, conditions on several fields and invalid searches before any record is returned.",
     ["inputs"],
     "all combinations of valid and invalid clauses over any catalogue",
     "The tests try a few invalid clauses one at a time.",
     ["src/db/query-validation.ts", "src/db/database.ts"],
     [{"name": "clause validation against the headers", "where": "src/db/query-validation.ts"}],
     "runtime monitor against an independently written acceptance rule",
     note="Observed on generated clause combinations.",
     observe=["errors of validation and of queries"])

prop("F11", "Building a query never changes the queries it was built from",
     "Every step of building a query returns a new query that holds exactly the clauses given so far in order, and leaves the query it was called on, and everything built from it, unchanged.",
     ["histories"],
     "all trees of builder calls from shared prefixes",
     "The tests build a few linear chains.",
     ["src/db/query-builder.ts"],
     [{"name": "copy on every call", "where": "src/db/query-builder.ts"}],
     "model-based runtime monitor of builder histories",
     note="Observed on random trees of calls.",
     observe=["queries produced by every builder at every step"])

prop("F12", "The cache is invisible except for the requests it saves",
     "Reading through the cache returns the bytes and lengths the source would return for every range, in order, however ranges repeat, nest and overlap and however calls interleave. A range within one already read or being read is not requested again, and a failed read is not remembered.",
     ["schedules", "histories", "fault_sequences"],
     "all sequences of concurrent calls with ranges that repeat, nest and overlap, with answers in any order and failures",
     "No test covers the cache.",
     ["src/resolver/cache.ts"],
     [{"name": "containment lookup over past ranges", "where": "src/resolver/cache.ts"}],
     "model-based runtime monitor with injected delays and failures",
     note="Observed on random schedules.",
     observe=["results and upstream requests"])

prop("F13", "An index older than its data file answers for the records it covers",
     "When the data file has grown since it was indexed, queries answer exactly for the records that were indexed, and once the index has caught up a new client sees all records.",
     ["histories", "inputs"],
     "all points at which the index lags behind the data, lines cut in the middle included",
     "The tests use one index for one data file.",
     ["src/db/database.ts", "pkg/handlers/jsonl.go"],
     [{"name": "append-only data, positions never move", "where": "pkg/handlers/jsonl.go"}],
     "cross-implementation history monitor",
     note="Index files are snapshots taken by the real indexer at random prefixes.",
     observe=["records yielded by the client"])

prop("F14", "A query downloads in proportion to its answer, not to the files",
     "For a query the client asks the server for no more pages of the index than the list of fields, twice the depth of the tree and the leaves that hold the entries it selects, up to its limit, call for, and for no more of the data file than the records it returns and the keys in those pages; every range it asks for lies within the file.",
     ["inputs", "configurations"],
     "all data files, queries, directions and limits",
     "The tests count no requests; cost-optimized serving is the project's first goal.",
     ["src/db/database.ts", "src/bptree/traversal.ts", "src/bptree/bptree.ts", "src/file/multi.ts", "src/file/index-file.ts"],
     [{"name": "pages are read on demand along one path", "where": "src/bptree"}],
     "runtime monitor weighing the requested ranges against an independently decoded index",
     note="Bounds are in counted pages and bytes from the decoded shape of the tree, with slack for the two sides of a walk; without the cache.",
     observe=["ranges asked of both files"])

prop("F15", "A file cut short is reported and never taken for data",
     "When the index or the data file is shorter than it was written, or answers to requests carry fewer bytes than asked for, every query, search and field list of the client either gives exactly what it gives on the whole files or fails with an error; no result is altered, invented or silently left out.",
     ["inputs", "faults"],
     "all data files, cuts of either file, shortened answers, queries and searches",
     "No test serves a partial file; an interrupted upload or a stale index produces them.",
     ["src/file/data-file.ts", "src/bptree/node.ts", "src/file/multi.ts", "src/db/database.ts"],
     [{"name": "reads are of known length", "where": "src/file"}],
     "differential runtime monitor of cut files against whole ones",
     note="The lengths of the data records come from the index; a data file that is longer or has been changed in place is not covered.",
     observe=["results and errors on the cut files, and the results on the whole ones"])

prop("G01", "The converter writes one JSON array and leaves its input alone",
     "Converting a JSON Lines file writes, next to it, one JSON array whose elements are exactly the file's records in order with all their values, and leaves the input unchanged; a bad input is reported and never overwritten.",
     ["inputs"],
     "all JSON Lines files and names",
     "No test covers the converter.",
     ["scripts/jsonl2json/src/main.rs"],
     [{"name": "line by line conversion", "where": "scripts/jsonl2json/src/main.rs"}],
     "end-to-end runtime monitor of the built tool on generated files",
     note="Numbers are compared as exact integers where they fit in 64 bits, else as doubles.",
     observe=["output and input files, exit status"])

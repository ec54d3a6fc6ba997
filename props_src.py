prop('P03', 'B+ tree keeps exactly the inserted entries, whatever their order',
 "After any history of insertions into a B+ tree, iterating it forwards from the first key (and backwards from the last) yields each inserted (value, data pointer) exactly once, in strictly increasing (decreasing) key order, each with the record pointer it was inserted with; Find and Contains answer exactly from that set. Inserting a key that is already present, or a value whose length does not fit the tree's width, is refused with an error and changes nothing. A handle opened on the same storage later sees the same set.",
 ['histories', 'inputs'], 'every sequence of insertions of distinct or repeated keys, in any order, for every page size, width and tree shape they produce',
 'Tests insert a few fixed or random sequences with page sizes where splits happen at round numbers; which child a key descends into after which sequence of splits depends on every earlier key.',
 ['pkg/bptree/bptree.go', 'pkg/bptree/node.go'], [('descent, insertion and node splitting', 'pkg/bptree/bptree.go'), ('key encoding in nodes', 'pkg/bptree/node.go')],
 'Every insertion history up to the stated length (and every further insertion into pre-built deep trees) is covered symbolically on the real bptree code; page sizes are small so that splits happen; keys are at most a third of a page long; nothing is claimed beyond those lengths.')
prop('P04', 'Seeking in a B+ tree lands on the first key at or after the target',
 "For any B+ tree content and any target (value, data pointer), iterating from the target yields exactly the stored entries whose key is not below the target, in order, and Find returns the first of them; Contains answers whether a value is stored under any data pointer. An iterator can change direction at any point, including after running off either end, and each step moves to the neighbouring entry.",
 ['histories', 'inputs'], 'every tree content, every target key present or absent, every sequence of forward and backward steps',
 'The interesting targets lie between keys of neighbouring leaves and beyond the last key of a leaf; the tests seek only keys that exist, in trees of one shape.',
 ['pkg/bptree/bptree.go'], [('seek and traversal', 'pkg/bptree/bptree.go'), ('search inside a node', 'pkg/bptree/node.go')],
 'Every target and step sequence within bounds on trees built by every short insertion history and on deeper pre-built trees.')
prop('P05', 'B+ tree nodes survive encoding and their size is computed exactly',
 "Every B+ tree node decodes from its encoding to the same node (kind, key values, data pointers, record pointers or child offsets), and the number of bytes the encoding takes is exactly the size the tree used when deciding whether the node fits its page. Keys that are not inlined come back as the value their data pointer refers to. Encoding into a writer that fails reports the failure.",
 ['inputs'], 'every node content: key count, widths, 64-bit offsets, 32-bit lengths, values',
 'Variable-length integers change size at 2^7, 2^14, ...; a size that is one byte off only shows for particular offsets in a nearly full node.',
 ['pkg/bptree/node.go', 'pkg/encoding/sizeVarint.go'], [('node codec', 'pkg/bptree/node.go'), ('varint size', 'pkg/encoding/sizeVarint.go')],
 'Round trip and size decided for all 64-bit offsets and 32-bit lengths in one-key nodes, and for nodes of several keys with smaller ranges.')
prop('P07', 'Vector B-tree keeps exactly the inserted nodes with their vectors',
 "After any history of insertions of distinct ids into the vector B-tree, finding an inserted id returns exactly the data pointer stored with it and the vector it was inserted with bit for bit, and finding any other id reports that it is absent. Nodes survive encoding unchanged and the size computed for a node equals the bytes written.",
 ['histories', 'inputs'], 'every insertion order, every id, every float32 bit pattern including NaNs and infinities',
 'Tests insert ascending ids with a few small vectors; splits in the middle and particular bit patterns are never met.',
 ['pkg/btree/btree.go', 'pkg/btree/node.go'], [('insertion and splits', 'pkg/btree/btree.go'), ('node codec', 'pkg/btree/node.go')],
 'Every insertion history up to the stated length with arbitrary ids and vector bit patterns, plus further insertions into deeper pre-built trees.')
prop('P08', 'Page file never hands out a live page and keeps page contents',
 "A page handed out by the page file is aligned, inside the file, not the reserved first page and not currently allocated to anyone else; the contents written to an allocated page (zero-padded to the page size) stay until that page is written or freed. Freed pages are handed out again, each at most once per free, also after closing and reopening the file; freeing an offset that is not an allocatable page is refused. Opening a truncated or misaligned file never crashes.",
 ['histories', 'inputs'], 'every sequence of allocate, free and reopen, every offset passed to free, every fill level of the free list',
 'The free list is a ring on one page: wrap-around, full and empty states need hundreds of frees in particular orders.',
 ['pkg/pagefile/pagefile.go'], [('free list ring', 'pkg/pagefile/pagefile.go'), ('allocation at end of file', 'pkg/pagefile/pagefile.go')],
 'Every operation sequence up to the stated length from an empty file and from files with a nearly full free list.')
prop('P09', 'Index slots are isolated and survive growth of the list',
 "Each slot of the linked index list keeps the tree root and metadata last stored in it, whatever is stored in or appended after other slots, across page boundaries, reused pages and reopening. Following the list visits the slots in creation order and then reports its end; metadata of up to 255 bytes comes back byte for byte and longer metadata is refused without any change.",
 ['histories', 'inputs'], 'every list length, every sequence of root, metadata and append operations on any slots, every metadata length',
 'A page holds sixteen slots, so boundary cases are at slot 15/16/31/...; the tests use a handful of slots.',
 ['pkg/linkedpage/linkedpage.go', 'pkg/metapage/metapage.go'], [('slot addressing', 'pkg/linkedpage/linkedpage.go')],
 'Lists around the page boundaries, every short sequence of updates with arbitrary contents. Metadata of 253..255 bytes overlapping the next slot is a listed known finding.')
prop('P10', 'File and index metadata survive encoding; malformed metadata is refused',
 "Encoding and decoding file metadata (version, format, read offset, entry count) and index metadata (field name, type, width, total value length) returns the same values for every value. Decoding arbitrary bytes either returns an error or values consistent with the bytes, and never crashes.",
 ['inputs'], 'every field value, every field name, every byte string given to the decoder',
 'Round-trip tests use one value each and never feed truncated input.',
 ['pkg/appendable/appendable.go'], [('metadata codecs', 'pkg/appendable/appendable.go')],
 'All 64-bit values; field names up to the stated length; arbitrary input up to the stated length.')

prop('P01', 'A JSONL file is indexed completely, and each entry points at its value',
 "After synchronizing an index over a JSONL file, the index for each field path and value type contains exactly one entry per occurrence of a value of that type under that path (field paths of nested objects joined with a dot), with the key that orders such values; the entry's record pointer delimits the line of the record in the data file and its data pointer delimits the text of the value in the file. Nothing else is indexed: arrays and absent fields have no entries. The number of entries and the read offset count exactly the complete lines. White space, escapes, key order, unusual field names and duplicate names make no difference. The total length recorded for an index is that of the texts it refers to (Booleans count one each, nulls nothing). Lines that are anything but one JSON object are refused with an error.",
 ['inputs'], 'every JSONL input: values, field names, nesting, white space, number of lines',
 'Tests index a few well-formed lines in canonical spacing and read back a handful of entries; offsets that are wrong only with other spacing, escapes or nesting stay unnoticed.',
 ['pkg/handlers/jsonl.go', 'pkg/appendable/index_file.go'], [('line and token scanning, field paths and offsets', 'pkg/handlers/jsonl.go'), ('index creation and lookup', 'pkg/appendable/index_file.go')],
 'Templates of JSONL records with symbolic values, names, white space and types, and every byte string of a few bytes as the data file; the index is read back with the real tree iterators and compared with an independent reading of the file.')
prop('P02', 'Synchronizing in steps equals synchronizing once',
 "However a data file grows between synchronizations (cut anywhere, in the middle of a line, a token or a header), and whether the index file is reopened in between or not, the index after the last synchronization equals the index built from the final file at once: same fields and types, same entries, same number of entries and read offset. Synchronizing again without new data changes nothing. An incomplete last line is left for the next time.",
 ['histories', 'crash_points'], 'every cut of every data file into any number of pieces, each followed by a synchronization',
 'Tests synchronize twice at a line boundary at most; cuts inside lines, quotes, CR-LF pairs or the CSV header are not met.',
 ['pkg/handlers/jsonl.go', 'pkg/handlers/csv.go', 'pkg/appendable/appendable.go'], [('resumption from the read offset', 'pkg/handlers/jsonl.go'), ('resumption and header of CSV files', 'pkg/handlers/csv.go'), ('persistent read offset and entry count', 'pkg/appendable/appendable.go')],
 'Every cut point of template files with symbolic values, one or several cuts, with and without reopening the index.')
prop('P06', 'A CSV file is indexed completely under its header, by the types of its cells',
 "After synchronizing an index over a CSV file, the index for each header name and cell type (number, Boolean, null for an empty cell, or string) contains exactly one entry per cell of that type in that column, with the key that orders such values, a record pointer to the line of the row and a data pointer to the text of the cell, quoted or not, with LF or CR-LF line ends. Entries and read offset count exactly the complete rows. The width recorded for an index is the width of its tree.",
 ['inputs'], 'every header and every combination of cell texts, quoting and line ends',
 'Tests use unquoted cells and LF; data pointers behind a quoted cell, cells that look like numbers in unusual notation, or CR-LF files are never read back.',
 ['pkg/handlers/csv.go'], [('row scanning and data pointers', 'pkg/handlers/csv.go'), ('cell type inference', 'pkg/handlers/csv.go')],
 'Rows of up to a few cells with symbolic text, quoting and line ends, and every byte string of a few bytes as rows; compared with an independent reading of the file.')
prop('P11', 'Index headers are found, created once and validated',
 "Opening an index file that was written with another version or data format is refused, and opening anything else than an index file never crashes. FindOrCreate returns the index of exactly the given name and type, creating it once and never touching or returning another; looking up what was not created reports that it is absent; the list of indexes has them in creation order with name, type and width as created, also after reopening. Listing field names gives each name once. A name that is too long is refused without leaving anything behind. Version, format, read offset and entry count come back as last stored.",
 ['histories', 'inputs'], 'every order of index creations and lookups with any names and types, every stored offset and count, every damaged or truncated file',
 'Tests create one or two indexes with fixed names.',
 ['pkg/appendable/index_file.go', 'pkg/appendable/appendable.go'], [('opening and validation', 'pkg/appendable/index_file.go'), ('lookup and creation of indexes', 'pkg/appendable/index_file.go')],
 'Every creation history of the stated length with symbolic names and types; files of arbitrary bytes of small size.')
prop('P12', 'The distance heap yields nearest and farthest items exactly',
 "After any history of insertions, distance updates and removals, the distance heap holds each inserted id once with its latest distance; peeking and popping the minimum (maximum) gives an item with the least (greatest) distance; an empty heap says so; and a clone is independent of its original.",
 ['histories', 'inputs'], 'every history of heap operations with any distances, ties included',
 'Whether a min-max heap is repaired right depends on the depth parity and the relative order of up to seven relatives; tests push ascending, descending or random values.',
 ['pkg/hnsw/heap.go'], [('min-max heap', 'pkg/hnsw/heap.go')],
 'One operation from every valid heap of up to the stated size with symbolic distances (inductive), and short histories from empty.')
prop('P13', 'The HNSW graph stays consistent and searches return true nearest points',
 "However vectors are inserted into the graph and whichever levels they are given, ids are consecutive, every neighbor listed for a node on a level is another existing node that lives on that level, listed once and with the true distance; a search returns at most k distinct points with their true distances, nearest first. While every node can know every other and the candidate list covers the graph, a search returns exactly the k nearest points. A vector of another dimension is refused and changes nothing. A neighborhood is written out as its nearest neighbors, nearest first, each with the highest level it is a neighbor on.",
 ['histories', 'inputs'], 'every insertion history, every assignment of random levels, every query',
 'Levels are random, so tests meet upper levels rarely and cannot tell which neighborhoods are legal.',
 ['pkg/hnsw/hnsw.go', 'pkg/hnsw/friends.go'], [('insertion and search', 'pkg/hnsw/hnsw.go'), ('neighborhoods', 'pkg/hnsw/friends.go')],
 'Every level assignment and every choice of coordinates from a small grid for graphs of a few vectors; floating point distances are tabulated exactly over the grid. Random levels come from a hook on math/rand in an overlay.')

prop('P14', 'Text is split into n-grams exactly by its definition',
 "For every text and gram length 1 to 3, the tokenizer yields in order exactly the runs of that many consecutive letters and digits of each word, in lower case, after compatibility decomposition, with characters outside ASCII and punctuation skipped and words separated by white space only; each with its position and extent counted in characters of the decomposed text. Shuffling a token list returns the same tokens, leaves the list alone and is repeatable.",
 ['inputs'], 'every text',
 'Tests use six phrases; what happens with punctuation inside words, words just as long as the gram, digits, ligatures or other white space stays unseen.',
 ['pkg/ngram/tokenizer.go'], [('word splitting and windows', 'pkg/ngram/tokenizer.go')],
 'Every ASCII text up to the stated length, and every text of a few pieces from a table of characters outside ASCII; for those the real x/text normaliser runs concretely.')
prop('P15', 'Searched fields have complete n-gram indexes',
 "For each field named as searched, and for each string value under it (also in nested objects), the unigram, bigram and trigram indexes hold exactly one entry per n-gram of the text: the n-gram as the key, a record pointer to the line, a data pointer that tells the n-gram's position behind the start of the value and the length of the value. Their recorded total length is the sum of the n-grams' extents and their width that of the n-gram. Values of other types and other fields get none, and indexing them goes on as usual.",
 ['inputs', 'histories'], 'every text and every mixture of value types under searched and other fields, in any number of synchronizations',
 'Tests index two hand-written records with plain words; repeated n-grams, empty texts, other types under a searched field and characters outside ASCII are not met.',
 ['pkg/handlers/jsonl.go', 'pkg/ngram/tokenizer.go', 'pkg/appendable/appendable.go'], [('n-gram entries', 'pkg/handlers/jsonl.go'), ('tokens', 'pkg/ngram/tokenizer.go')],
 'Every short text with symbolic characters; two records mixing value types, at once or step by step; texts outside ASCII from a table. Positions reaching into the next record are a listed known finding.')

prop('P16', 'A storage failure is reported, never swallowed',
 "When any storage operation fails during any call (opening, synchronizing, listing, looking up, iterating, inserting, allocating or freeing a page, reading or updating a list slot), the call returns an error (iteration ends with one), never success, a wrong or partial result, or a crash. A call that only reads changes nothing and can be repeated. An insertion that fails before the tree was written leaves the tree as it was. Whatever page operation failed, no page in use is handed out again and no page or slot other than the one operated on changes. A synchronization that failed is not recorded as done.",
 ['fault_sequences', 'inputs'], 'every operation as the point of failure, once or for good, from every reachable state',
 'The tests inject no storage failures at all.',
 ['pkg/bptree/bptree.go', 'pkg/btree/btree.go', 'pkg/pagefile/pagefile.go', 'pkg/linkedpage/linkedpage.go', 'pkg/appendable/index_file.go', 'pkg/handlers/jsonl.go', 'pkg/handlers/csv.go'], [('error propagation of tree operations', 'pkg/bptree/bptree.go'), ('free list updates', 'pkg/pagefile/pagefile.go'), ('error propagation of opening and listing', 'pkg/appendable/index_file.go')],
 'The storage under the real code fails at a symbolic operation; trees of a few levels, page files, lists and small synchronizations. Recovery of a tree from a failure in the middle of a node split is not claimed: the format updates pages in place without a log.')
prop('P18', 'A refused record leaves no trace and blocks nothing but itself',
 "When synchronization meets a line that is no record (malformed or truncated JSON or CSV, more cells than the header, a field name too long for the index), it returns an error and never crashes; the index then holds exactly the records before that line, and says so in its read offset and entry count. Synchronizing again gives the same error and changes nothing. Once the data file is corrected from that line on, synchronizing completes and the index equals the one built from the corrected file at once. A data file shorter than what has been indexed is refused with an error and changes nothing.",
 ['inputs', 'histories'], 'every malformed line, behind any records, with every later correction',
 'Tests check that bad input gives an error, never what the index holds afterwards.',
 ['pkg/handlers/jsonl.go', 'pkg/handlers/csv.go', 'pkg/appendable/index_file.go'], [('line validation and progress', 'pkg/handlers/jsonl.go'), ('line validation and progress', 'pkg/handlers/csv.go'), ('field name check', 'pkg/appendable/index_file.go')],
 'Files of a few records with one line that has arbitrary bytes in several contexts; the index is read back after the failure, after a second attempt, and after the correction.')

prop('P17', 'A memory-mapped file behaves like a file',
 "For any sequence of Seek, Read, ReadAt, Write and WriteAt, a memory-mapped file answers as a file of the same contents would: the bytes read, the counts returned, end of file exactly on a short read, the position afterwards; writes inside, across and behind the end take effect with the gap zero, the map and the file on disk show them at once and after closing. Impossible offsets and writes through a map opened for reading are refused with an error, change nothing and never crash. The position can be set anywhere within the contents and nowhere else.",
 ['histories', 'inputs'], 'every sequence of operations with any lengths and offsets, on empty and non-empty files',
 'The tests do one write or one read each and never combine growing, seeking and reading.',
 ['pkg/mmap/mmap.go'], [('reading, writing and remapping', 'pkg/mmap/mmap.go')],
 'Every sequence of two (thorough: three) operations with arbitrary contents on small files. The operating system (files, mmap, mremap) is a model in the symbolic execution; counterexamples are replayed against the real one.')

prop('P24', 'The command leaves the index of the data file on disk',
 "Running the command with -jsonl or -csv, -i INDEX, any number of -s FIELD and one data file ends with status 0 and leaves at INDEX, which it creates if need be, the index of all complete records of the data file: exactly the entries the package makes of that file with those searched fields, whether INDEX was absent, empty, or left by an earlier run over a shorter version of the file; in whatever order and style the flags are written, and with or without -debug, -t, -b and -pprof. A run that cannot do what it is told (no format, not exactly one data file or one that does not exist, an unknown flag or one without its value, an index of another format or version) ends with another status and leaves an existing index byte for byte as it was; a malformed record ends it with another status and leaves the index of the records before it, which later runs continue. The data file is never changed.",
 ['inputs', 'histories'], 'every data file, command line and earlier state of the index file, over any number of runs',
 'No test runs the command: the flags, the files it opens and what is on disk when it ends are not tested at all.',
 ['cmd/main.go', 'pkg/mmap/mmap.go', 'pkg/appendable/index_file.go'], [('the command', 'cmd/main.go'), ('index file on disk', 'pkg/mmap/mmap.go'), ('opening an index', 'pkg/appendable/index_file.go')],
 'The real main function with the real packages beneath it is executed over a model of files and memory maps (several pages); counterexamples are replayed by running the command as a process over real files.')

prop('P19', 'The browser client decodes exactly what the Go side wrote',
 "The TypeScript client reads the binary index format as the Go side writes it: variable-length integers up to 2^53, file metadata (version, format, 64-bit read offset, entries), index metadata (name in UTF-8, type, width, total length), B+ tree nodes (leaf or inner, inlined or referenced keys, data pointers, record pointers and child offsets), and the linked list of indexes across pages (roots and metadata, in order, to its end). The headers it lists are the field names and types that were indexed, and looking up a field and type finds exactly its index.",
 ['inputs'], 'every value of every encoded field, every number of keys and list length, every field name',
 'The TypeScript tests decode a handful of recorded files written by an old build; nothing ties them to what the Go code writes today, and large values, other widths and list boundaries are never met.',
 ['src/util/uvarint.ts', 'src/bptree/node.ts', 'src/file/meta.ts', 'src/file/multi.ts', 'src/file/index-file.ts', 'pkg/bptree/node.go', 'pkg/appendable/appendable.go', 'pkg/linkedpage/linkedpage.go'],
 [('varint decoding', 'src/util/uvarint.ts'), ('node decoding', 'src/bptree/node.ts'), ('metadata decoding', 'src/file/meta.ts'), ('list of indexes', 'src/file/multi.ts'), ('index lookup', 'src/file/index-file.ts')],
 'The real Go encoders and the real TypeScript decoders are executed together on symbolic contents. The TypeScript is translated to Go on every run; a client that cannot be translated is reported as not covered.')
prop('P20', 'Lookups and iteration in the client see the B+ tree as an ordered map',
 "On any B+ tree the Go side writes, the client's iterator from any key yields exactly the stored entries at or after it, in order, with their record pointers, when moved forwards, and exactly those before it, in reverse, when moved backwards; its find returns the entry at or after the key. The first and last key it reports are the smallest and the largest stored. Keys held in the data file (strings) are compared by the text they stand for.",
 ['histories', 'inputs'], 'every tree content and shape, every target key present or absent, forwards and backwards',
 'The TypeScript tests walk two recorded trees from keys that exist; keys between two leaves, absent keys, duplicates and single-node trees are never looked up.',
 ['src/bptree/bptree.ts', 'src/bptree/traversal.ts', 'src/bptree/node.ts'], [('descent and first/last', 'src/bptree/bptree.ts'), ('iterator', 'src/bptree/traversal.ts')],
 'Trees built by the real Go code from every short insertion history and deeper pre-built ones, read by the real TypeScript code, with every target.')
prop('P21', 'A client query returns exactly the matching records, in order',
 "A query (field, one of < <= == >= >, value, optionally ordered ascending or descending, optionally with selected fields) over a data file and the index the Go side built yields exactly the records whose field has a value of the same type that satisfies the comparison: each once, ordered by value (equal values in file order) or the reverse for descending, ascending being the default. A match is yielded as the parsed record, or as an object of the selected fields it has. Fields of nested objects are addressed by their dotted path. The query builder asks the same as the query object.",
 ['inputs', 'histories'], 'every data file, value, operator, direction and selection',
 'The TypeScript tests of queries use mocks and compare query objects; no test runs a query on an index the Go side built.',
 ['src/db/database.ts', 'src/db/query-lang.ts', 'src/db/query-builder.ts', 'src/file/data-file.ts', 'pkg/handlers/jsonl.go'], [('query evaluation', 'src/db/database.ts'), ('query values and selection', 'src/db/query-lang.ts'), ('query builder', 'src/db/query-builder.ts')],
 'The real Go synchronization builds the index, the real TypeScript client queries it: every operator and direction on every short data file from symbolic and listed values, and on deeper trees. Order comparisons with numbers below zero are a listed known finding.')
prop('P22', 'A client search finds each document with a matching n-gram once, best first',
 "A search phrase is cut into the same n-grams as the Go side cut the indexed text into (words of letters and digits, separated by white space, lower case, other characters decomposed to ASCII or skipped). The search yields every record whose text holds at least one of the phrase's n-grams of the asked lengths (by default 1 to 2), each exactly once as its exact line, no other, best score first. A record's score is the sum over the phrase's n-grams (an n-gram counts as often as the phrase has it) of ln((N-n+0.5)/(n+0.5)) * tf*2.2/(tf+1.2), with N the entries of the file, n the records with the n-gram and tf how often the record has it, whatever the order of the lookups.",
 ['inputs', 'schedules'], 'every set of texts and every phrase, every order of token lookups',
 'The TypeScript tests cut three ASCII phrases and never run a search.',
 ['src/ngram/tokenizer.ts', 'src/ngram/table.ts', 'src/db/database.ts', 'src/bptree/bptree.ts', 'pkg/ngram/tokenizer.go'], [('tokenizer', 'src/ngram/tokenizer.ts'), ('ranking', 'src/ngram/table.ts'), ('search', 'src/db/database.ts'), ('term frequency', 'src/bptree/bptree.ts')],
 'Every short ASCII phrase, phrases of awkward characters; searches over every short file of short texts from a small alphabet and over texts that share n-grams.')
prop('P23', 'Range requests of the client return the right bytes or fail',
 "A request for byte ranges (inclusive on both ends) returns, for every range asked for and in that order, exactly those bytes of the file and the file's total length, or fails; it never hangs and never returns fewer ranges or other bytes, and a complete response to ranges of two or more bytes is accepted. This holds for multipart responses in any chunks, of any part sizes and contents, with the parts in any order or merged, with or without a line break before the first boundary, boundaries in quotes and header names in any case; for truncated ones, single-part responses with the ranges or others, servers that ignore ranges, and error statuses; and with multipart requests disabled. A caching resolver returns the same as the resolver it wraps, for one range or several, and asks again for what failed.",
 ['inputs', 'schedules'], 'every response body, every way to split it into chunks, every truncation point, every sequence of requested ranges',
 'The one test of the parser sends one body in one chunk.',
 ['src/resolver/multipart.ts', 'src/resolver/range-request.ts', 'src/resolver/cache.ts'], [('multipart parser', 'src/resolver/multipart.ts'), ('range requests', 'src/resolver/range-request.ts'), ('cache', 'src/resolver/cache.ts')],
 'Bodies of a few parts with arbitrary contents, cut or truncated anywhere, and parts larger than the parser\'s buffer; fetch is a stand-in that plays the server.')
prop('P25', 'The vector store keeps every added vector and its neighborhood',
 "However vectors are added to the vector store (a graph, a vector B-tree and a tree of neighborhoods), with repeated vectors, equal neighborhoods and levels of any height, every vector of the right dimension is accepted under the next id; the vector tree finds it under that id bit for bit, and the neighborhood tree holds exactly one entry per added vector, under its id: the neighborhood of up to eight nearest neighbors it had when it was added. A vector of another dimension is refused and leaves no trace. A failing storage operation is reported and damages no vector stored before.",
 ['histories', 'inputs', 'fault_sequences'], 'every history of additions, every assignment of random levels, every failing storage operation',
 'The only test of the package never adds a vector to the store.',
 ['pkg/vectorpage/manager.go', 'pkg/hnsw/hnsw.go', 'pkg/hnsw/friends.go', 'pkg/btree/btree.go', 'pkg/bptree/bptree.go'], [('adding a vector', 'pkg/vectorpage/manager.go'), ('neighborhoods', 'pkg/hnsw/friends.go')],
 'Every level assignment and every choice of coordinates from a small grid for a few vectors, tables of unusual numbers, and dozens of long vectors; both trees share one real page file.')
prop('P26', 'A query that cannot be answered is refused, any other is accepted',
 "Validating a query against the headers of an index accepts exactly: one or more conditions, each with one of the five operators, a field of the index and a value of a type the field has (numbers of all kinds count as one type); optionally ordered by the field of the first condition, ASC or DESC; optionally with one or more selected fields, all of the index; and a search on a field that has all three kinds of n-gram index, with gram lengths 1 <= min <= max <= 3, or none given, which means 1 to 2. Everything else is refused with an error. A query to the database fails before it yields any record if its conditions are on different fields, on a field the index does not have or compare with something that is no value, or if its search is one that validation refuses.",
 ['inputs'], 'every query and every list of headers',
 'The tests validate a few queries against fixed headers, mostly with one condition, and never run a refused query on an index.',
 ['src/db/query-validation.ts', 'src/db/database.ts', 'src/db/query-lang.ts'], [('query validation', 'src/db/query-validation.ts'), ('checks of the database', 'src/db/database.ts')],
 'Fields of arbitrary types, every operator, values of every type, arbitrary gram lengths, conditions on up to two fields; the expected answer is a formula over the types.')

prop('P27', 'A failed request fails its query and nothing else',
 "When a request of the client for a part of the index or data file fails during a query, a search or the listing of fields, that query fails with an error after yielding at most records that it would have yielded anyway, in the same order: it never ends as if there were no more. Queries, searches and listings on the same database afterwards, the same or others, yield exactly what they yield on a database where nothing failed.",
 ['fault_sequences', 'histories'], 'every request of every query failing, alone or with all that follow, and every later query',
 'The tests of the client answer every request from a buffer; none ever fails.',
 ['src/db/database.ts', 'src/file/index-file.ts', 'src/file/multi.ts', 'src/bptree/bptree.ts'], [('fields', 'src/db/database.ts'), ('pages of the index list', 'src/file/multi.ts'), ('list of indexes', 'src/file/index-file.ts')],
 'Databases over files the Go side indexes, with lists of one and of several pages; the number of the failing request is symbolic; the oracle is the same question asked of a fresh database without failures. Requests are answered one at a time: queries that overlap are not covered.')
prop('P28', 'Opened by address, a database answers as one over the files',
 "A database opened with the address of its data file, of its index file or of both (or with a resolver in place of either) answers every query, search and listing of fields with exactly what a database over the same bytes held in memory answers, in the same order. This holds for servers that answer a request for several ranges in parts in any order, with one part that spans them, or with the whole file, and for a configuration that is missing, empty, or has multipart requests on or off; where they are off, no request asks for more than one range. A query one of whose requests the server refuses fails, and later ones are answered in full.",
 ['inputs', 'configurations', 'fault_sequences'], 'every pair of files, way to open them, configuration, behaviour of the server and refused request',
 'No test opens a database by address: the tests use resolvers over buffers.',
 ['src/index.ts', 'src/file/data-file.ts', 'src/file/index-file.ts', 'src/resolver/range-request.ts', 'src/resolver/cache.ts'], [('opening a database', 'src/index.ts'), ('data file', 'src/file/data-file.ts'), ('index file', 'src/file/index-file.ts'), ('range requests', 'src/resolver/range-request.ts')],
 'The whole client, from its entry point to fetch (which plays the server), is executed on indexes the Go side builds; the oracle is the same client over the files themselves.')
prop('P29', 'Queries that overlap do not disturb each other',
 "Queries, searches and listings of fields that are asked of one database at once each come to an end and yield exactly what they yield alone, in the same order, in whatever order their requests are answered. A request that fails makes at most the ones fail that were asked together, each after a part of what it yields alone; none of them ends early without an error or waits for ever, and what is asked afterwards is answered in full.",
 ['schedules', 'fault_sequences'], 'every set of questions asked at once, every order in which the requests are answered, every failing request',
 'The tests of the client ask one thing at a time and answer every request at once.',
 ['src/db/database.ts', 'src/file/index-file.ts', 'src/file/multi.ts', 'src/bptree/bptree.ts', 'src/resolver/cache.ts'], [('fields', 'src/db/database.ts'), ('pages of the index list', 'src/file/multi.ts'), ('list of indexes', 'src/file/index-file.ts'), ('caches', 'src/resolver/cache.ts')],
 'Promises are settled later here: asynchronous functions are goroutines of the engine, requests wait until nothing else goes on, and the answered one is chosen by the harness (the oldest, from one turn to another the newest); two or three questions at once.')

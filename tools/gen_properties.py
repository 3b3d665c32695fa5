#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['hook_needed']=hook
    P.append(d)

p("C01","Stored documents come back exactly as they were added",
 "Whatever document is added to an index, once it is committed every reader returns it with exactly the stored fields it was given, in order, each with exactly the values (byte for byte, any size, plain or compressed, one or many values) and none of the unstored ones. Reading the document whole and reading it lazily (field by field, or an arbitrary byte range of a field) agree, and flushing, merging, optimizing, compound files and reopening do not change it.",
 ["inputs","histories","configurations"],"all documents, field configurations, writer configurations and flush/merge/optimize/reopen histories",
 "The tests store a few short fixed documents; sizes around compression and stream buffers, empty values, binary bytes and merges of mixed segments are not sampled.",
 ["c/src/index.c","c/src/document.c","c/src/store.c"],
 [("stored-field writer/reader (.fdt/.fdx)","c/src/index.c FieldsWriter, FieldsReader"),("lazy documents","c/src/index.c lazy_df_get_data, lazy_df_get_bytes"),("merge of stored fields","c/src/index.c sm_merge_fields")],
 ["IndexReader get_doc / get_lazy_doc"])
p("C02","The inverted index records exactly the indexed tokens",
 "For every field, enumerating the terms gives exactly the distinct tokens of the indexed documents in byte order (starting from any seek point too), and for every term the postings list exactly the live documents containing it, in increasing order, with the right in-document frequency and ascending positions. Seeking, skipping, bulk reading and the document frequency all agree with that listing, for every index and skip interval and whatever the segment structure.",
 ["inputs","histories","configurations"],"all token sequences (any position increments), documents, field flags, writer configurations and segment structures",
 "Tests index a handful of documents with default intervals; skip lists, term-index boundaries, multi-segment enumeration and long postings need generated data and an independent model.",
 ["c/src/index.c","c/src/mempool.c"],
 [("document inverter","c/src/index.c dw_invert_field, dw_flush"),("term dictionary","c/src/index.c TermInfosWriter, SegmentTermEnum, MultiTermEnum"),("postings","c/src/index.c SegmentTermDocEnum, MultiTermDocEnum, skip lists"),("merge","c/src/index.c SegmentMerger")],
 ["TermEnum, TermDocEnum, doc_freq"])
p("C03","Term vectors agree with what was indexed",
 "For every live document and every field configured to store term vectors, the term vector lists exactly that field's distinct tokens in byte order with their frequencies, and, when configured, their positions and the character offsets of each position; fields without term vectors return none. Merging, optimizing and reopening leave term vectors unchanged.",
 ["inputs","histories","configurations"],"all documents, term-vector settings and segment histories",
 "Tests check one or two fixed vectors in one segment.",
 ["c/src/index.c","c/src/term_vectors.c"],
 [("term-vector writer/reader","c/src/index.c fw_add_postings, fr_get_tv, fr_get_field_tv"),("term-vector lookup","c/src/term_vectors.c")],
 ["IndexReader term_vector / term_vectors"])
p("C04","Deletions hide exactly the deleted documents, durably",
 "Deleting documents (by number through a reader, or by term or list of terms through a writer, including documents still buffered) removes exactly those documents from document counts, postings, searches and direct access checks, and from nothing else; undeleting restores exactly the ones not yet merged away. Once committed the effect survives reopening, later additions, merges and optimization, and no deleted document ever reappears.",
 ["histories","configurations"],"all interleavings of adds, deletes by number and by term, undelete, commits, merges, optimize and reopen",
 "Tests run a few hand-written delete sequences; multi-segment, repeated-delete and delete-then-merge histories are unbounded.",
 ["c/src/index.c","c/src/bitvector.c","c/include/bitvector.h"],
 [("deleted-docs bit vector and generations","c/src/index.c sr_delete_doc_i, sr_commit_i, si_advance_del_gen"),("delete by term","c/src/index.c iw_delete_term, iw_delete_terms"),("doc map on merge","c/src/index.c smi_load_doc_map")],
 ["num_docs, max_doc, is_deleted, has_deletions, TermDocEnum"])
p("C05","Indexing settings never change what an index contains",
 "The same sequence of additions, deletions, commits and optimizations produces the same logical index (live documents in the same order, terms, postings, positions, vectors, norms) whatever the buffer sizes, merge factor, merge limits, index and skip intervals, compound-file setting and storage (memory or disk). After optimize there is one segment, no deleted document and document numbers are dense.",
 ["configurations","histories"],"all writer configurations and both store kinds, for every history",
 "Tests use the default configuration almost everywhere; the configuration space is a product of eight parameters.",
 ["c/src/index.c","c/src/mempool.c","c/src/compound_io.c","c/src/ram_store.c","c/src/fs_store.c"],
 [("flush policy","c/src/index.c iw_add_doc, mp_used"),("merge policy","c/src/index.c iw_maybe_merge_segments, iw_merge_segments, iw_optimize"),("compound files","c/src/compound_io.c")],
 ["full dump of a freshly opened reader"])
p("C06","Boolean, term, phrase and multi-term queries match the right documents",
 "A term, boolean (required, optional, prohibited, nested), phrase (exact, with gaps, alternatives at a position, sloppy), multi-term, match-all, constant-score or filtered query returns exactly the live documents that satisfy its definition over the indexed tokens. The set is the same through every search entry point and wherever the scan starts.",
 ["inputs","configurations"],"all queries of these kinds over all small corpora, segment structures and deletions",
 "Tests check a few dozen fixed queries on one 18-document corpus; scorer skipping/advancing logic depends on relative document order.",
 ["c/src/q_boolean.c","c/src/q_phrase.c","c/src/q_term.c","c/src/q_multi_term.c","c/src/q_match_all.c","c/src/q_const_score.c","c/src/q_filtered_query.c","c/src/search.c"],
 [("boolean scorers","c/src/q_boolean.c conjunction, disjunction, req_opt, req_excl scorers"),("phrase scorers","c/src/q_phrase.c exact and sloppy scorers"),("scan loops","c/src/search.c isea_search_w, isea_search_each_w, isea_search_unscored_w")],
 ["search, search_each, search_unscored"])
p("C07","Prefix, wildcard, fuzzy and range queries select exactly the right terms",
 "Prefix, wildcard, fuzzy, range and typed (numeric) range queries and filters match exactly the live documents containing at least one term that satisfies the prefix, pattern, edit-distance similarity, or bounds (inclusive, exclusive or open), as long as the expansion limit is not exceeded. Query and filter forms of the same range agree.",
 ["inputs","configurations"],"all patterns, bounds, similarity thresholds and term dictionaries",
 "Tests use a small fixed list of words and bounds.",
 ["c/src/q_prefix.c","c/src/q_wildcard.c","c/src/q_fuzzy.c","c/src/q_range.c","c/src/filter.c"],
 [("pattern matcher","c/src/q_wildcard.c wc_match"),("edit distance","c/src/q_fuzzy.c fuzq_score"),("range bit vector","c/src/q_range.c rfilt_get_bv_i, trfilt_get_bv_i"),("expansion","c/src/q_multi_term.c multi_tq_add_term_boost")],
 ["search results, filter bit vectors"])
p("C08","Span queries match exactly the documents their spans define",
 "Span term, multi-term, prefix, first, or, not and near queries (ordered or not, any slop, any nesting) match exactly the live documents in which at least one span satisfying the definition exists.",
 ["inputs","configurations"],"all span query trees over all position layouts",
 "Tests use a fixed 27-document corpus; near/not enumeration depends on the relative order of spans within and across documents.",
 ["c/src/q_span.c"],
 [("span enumerators","c/src/q_span.c SpanTermEnum, SpanOrEnum, SpanNearEnum, SpanNotEnum, SpanFirstEnum")],
 ["search results of span queries"])
p("C09","Scores follow the documented similarity formula and match explain",
 "The score reported for a hit equals the tf/idf, field-norm, coordination, boost and query-normalisation formula evaluated on the index statistics, and equals the value that explain gives for that query and document; explain gives zero for live documents that do not match. The score of a document does not depend on the entry point, paging, sorting or filtering used.",
 ["inputs","configurations"],"all queries (term, boolean, phrase, multi-term and expansions) over all corpora, boosts and norms",
 "Tests compare scores of a few fixed queries with recorded constants.",
 ["c/src/similarity.c","c/src/q_term.c","c/src/q_boolean.c","c/src/q_phrase.c","c/src/q_multi_term.c","c/src/search.c"],
 [("weights and normalisation","c/src/search.c q_weight, w_normalize; c/src/q_boolean.c bw_*"),("explanations","explain methods of every weight and scorer")],
 ["TopDocs scores, Explanation values"])
p("C10","Hits are ranked, sorted, counted and paged consistently",
 "Search results are ordered by descending score with ties by document number, or by the requested sort fields (any type, any direction, several keys) with ties by document number; every page is the corresponding slice of the full ordering. The total hit count, maximum score, filters and post-filters cover all matching live documents independently of the page requested.",
 ["inputs","configurations"],"all corpora, queries, sorts, filters and (offset, limit) windows",
 "Tests page and sort one small fixed result set.",
 ["c/src/search.c","c/src/sort.c","c/src/field_index.c","c/src/filter.c","c/src/priorityqueue.c"],
 [("hit queue","c/src/search.c hit_pq_*"),("sorted hit queue","c/src/sort.c fshq_*"),("field index caches","c/src/field_index.c")],
 ["TopDocs"])
p("C11","The query parser never crashes and builds the query that was written",
 "For any byte string the parser returns a query or reports a parse error (with error recovery on, it always returns a query), never crashing, hanging or reading outside its input, and the same string always gives an equal query, whatever was parsed before. For strings generated from the documented syntax (terms, fields, phrases, ranges, wildcards, fuzzy, boosts, boolean operators, nesting) the query matches the documents that the syntax defines.",
 ["inputs"],"all query strings and parser settings",
 "Tests parse about a hundred fixed strings.",
 ["c/src/q_parser.c","c/src/q_parser.y"],
 [("grammar and lexer","c/src/q_parser.c yyparse, yylex"),("error recovery","c/src/q_parser.c qp_clean_str, qp_get_bad_query")],
 ["qp_parse result and search results"])
p("C12","Analyzers emit well-formed, faithful tokens for any text",
 "For any text every analyzer and token filter terminates and emits tokens whose offsets lie inside the text, never go backwards and delimit the source of the token, with bounded token length and non-negative position increments. Whitespace, letter and keyword tokenizers, lower-casing, stop, stem, hyphen and mapping filters produce exactly the tokens their definition gives, and analysing a text is independent of what was analysed before.",
 ["inputs"],"all byte strings in the supported encodings and all filter chains",
 "Tests tokenize a handful of sentences.",
 ["c/src/analysis.c","c/src/scanner.c","c/src/scanner_mb.c","c/src/scanner_utf8.c","c/src/multimapper.c","c/src/stopwords.c"],
 [("tokenizers","c/src/analysis.c, scanners"),("filters","c/src/analysis.c"),("string mapper","c/src/multimapper.c")],
 ["token streams"])
p("C13","An open reader is a fixed snapshot of the index",
 "Everything a reader returns stays what the committed index contained when it was opened, until it is closed, no matter what writers or other readers add, delete, merge, optimize or re-create in the meantime, on disk and in memory. A reader reports being the latest exactly when no newer commit exists, and a new reader always sees the newest commit and never uncommitted work.",
 ["histories","configurations"],"all interleavings of writer operations with reader opens, reads and closes",
 "Tests open at most two readers around one change.",
 ["c/src/index.c","c/src/ram_store.c","c/src/fs_store.c"],
 [("segment files are write-once; deletions and norms by generation","c/src/index.c"),("deferred file deletion","c/src/index.c Deleter"),("reference counted memory files","c/src/ram_store.c")],
 ["full dump of old readers after later writes; is_latest"])
p("C14","A crash at any moment leaves the last committed index",
 "If the process dies at any point of any update (adding, deleting, committing, merging, optimizing, closing), even half-way through a write, then after the stale lock is cleared the index opens and contains exactly the state of the last completed commit or of the one in progress. A new writer can then open it, continue, and its commits are durable in turn.",
 ["crash_points","histories"],"all crash points (before, after and in the middle of every file-system effect) of all histories",
 "No test crashes anything.",
 ["c/src/index.c","c/src/fs_store.c"],
 [("generation-numbered segments files","c/src/index.c sis_write, sis_read, sis_find_segments_file"),("files deleted only after commit","c/src/index.c Deleter")],
 ["directory image after each file-system call, reopened"],hook=None)
p("C15","An I/O failure is reported and never damages the committed index",
 "When any file-system operation fails (write, short write, no space, open, read, rename, delete, close), the operation in progress reports an error instead of crashing, hanging or claiming success. The index as last committed stays readable and complete, and once the fault is gone a new writer can update it.",
 ["fault_sequences","histories"],"every single failing call, and sticky failures from any call on, of all histories",
 "No test injects a fault.",
 ["c/src/fs_store.c","c/src/store.c","c/src/index.c","c/src/except.c"],
 [("error raising in streams","c/src/fs_store.c fso_flush_i, fsi_read_i"),("exception framework","c/src/except.c, c/include/except.h")],
 ["outcome of each operation; index reopened after the fault"])
p("C16","At most one writer holds the index at any time",
 "At any moment at most one writer, or reader with pending changes, holds the index's write lock, across threads and processes; any other attempt fails with a lock error and changes nothing, in particular it does not weaken the current holder's exclusivity. Closing, or failing while opening, releases only what was acquired, and afterwards the lock can be taken again.",
 ["histories","schedules"],"all interleavings of open, failed open, modify, commit, close by several writers and readers",
 "Tests take each lock once or twice in sequence.",
 ["c/src/fs_store.c","c/src/ram_store.c","c/src/index.c"],
 [("lock files","c/src/fs_store.c fs_lock_obtain, fs_lock_release, fs_close_lock_i"),("write lock of writers and readers","c/src/index.c iw_open, ir_acquire_write_lock")],
 ["outcome of each acquisition attempt; lock state"])
p("C17","Index directories hold exactly the live files, and only those are touched",
 "After a writer or reader commits and closes, the directory contains the files of the current commit and nothing left over from superseded segments, deletions or norms; every file the commit refers to exists. Opening, creating over, optimizing or clearing an index never removes or alters files that are not index files, and all file handles and locks are released on close.",
 ["histories","configurations"],"all histories of writers, readers, deletions, merges and re-creation with foreign files present",
 "Tests check a single file-deletion scenario.",
 ["c/src/index.c","c/src/fs_store.c"],
 [("file deleter","c/src/index.c deleter_*"),("index file name filter","c/src/index.c file_name_filter_is_index_file"),("clear","c/src/fs_store.c fs_clear_all, fs_clear")],
 ["directory listing, open descriptors"])
p("C18","Stores and streams behave like files",
 "A store behaves as a map from names to byte strings, identically in memory, on disk and inside compound files: what is written (any mix of bytes, integers, variable-length integers, strings, seeks) is what is read back, at any position, through any number of independent clones; exists, length, count, listing, rename, touch and remove agree with that map. Reading past the end raises an end-of-file error rather than returning data. A file a store creates on disk can be read and written by its owner and, when the directory belongs to the process's group, by that group as far as the directory itself can; never by others.",
 ["inputs","histories"],"all operation sequences on stores and streams, around every buffer boundary",
 "Tests write short fixed sequences.",
 ["c/src/store.c","c/src/fs_store.c","c/src/ram_store.c","c/src/compound_io.c"],
 [("buffered streams","c/src/store.c"),("compound reader/writer","c/src/compound_io.c")],
 ["bytes and values read; store listings"])
p("C19","Combined indexes equal one index holding all the documents",
 "Adding other indexes into one, reading several indexes through a multi-reader, and searching several indexes through a multi-searcher all give the documents, terms, postings, vectors, norms, document frequencies, matches and order that a single index with the same documents in the same order gives, including when the indexes have different fields or deleted documents (the fields they share being defined alike).",
 ["inputs","configurations","histories"],"all partitions of a corpus into indexes, with different field sets and deletions",
 "Tests combine two or three small identical-schema indexes.",
 ["c/src/index.c","c/src/search.c","c/src/sort.c"],
 [("add_readers","c/src/index.c iw_add_readers, iw_add_segment"),("multi-reader field maps","c/src/index.c MultiReader"),("multi-searcher","c/src/search.c msea_*")],
 ["dump of the combined index; search results"])
p("C20","Norms and boosts are kept per document and field",
 "Each live document's norm for an indexed field with norms is the encoding of field boost x document boost x field-value boost x length norm; setting a norm through a reader changes exactly that document and field, for that reader at once and for everyone after commit. Norms survive reopening, further commits, merges, optimization and index addition, and fields without norms always report the neutral value.",
 ["inputs","histories","configurations"],"all boosts, field lengths, set-norm sequences and segment histories",
 "Tests set a few norms in one segment.",
 ["c/src/index.c","c/src/helper.c","c/src/similarity.c"],
 [("norm writers and generations","c/src/index.c sr_set_norm_i, norm_rewrite, sm_merge_norms"),("byte float encoding","c/src/helper.c float2byte, byte2float")],
 ["get_norms, get_norms_into"])
p("C21","Threads sharing an index see linearizable, race-free behaviour",
 "Threads that share one index object or one writer, concurrently adding, deleting, searching, reading documents, optimizing and committing, observe results that some sequential order of their operations explains: no update is lost or duplicated, every search and every newly opened reader reflects a consistent state, and no crash, deadlock or data race on shared state occurs. Threads that search and read through one shared reader and searcher each get what a thread alone would get. An error in one thread is reported to that thread, and leaves what is shared usable. Threads using separate indexes never influence each other, and threads opening writers on the same index are kept apart by the write lock.",
 ["schedules"],"all thread schedules of mixed workloads",
 "The project's own threading test is excluded from the stable suite because it crashes intermittently.",
 ["c/src/ind.c","c/src/index.c","c/src/store.c","c/src/fs_store.c","c/src/hash.c","c/src/symbol.c","c/src/except.c"],
 [("index mutex","c/src/ind.c"),("writer and reader mutexes","c/src/index.c"),("thread-local term enumerators","c/src/index.c TermInfosReader")],
 ["operation history; ThreadSanitizer reports"])
p("C22","Container types behave like their abstract models",
 "Hash tables, hash sets, bit vectors, priority queues, dynamic arrays, memory pools and the multi-mapper behave for every operation sequence like the map, ordered set, bit set, bounded priority queue, sequence, stable allocation arena and earliest-match string rewriting they implement, including growth, deletion and re-insertion, bulk operations on operands of different lengths, and destruction callbacks exactly once per owned element.",
 ["inputs","histories"],"all operation sequences",
 "Tests cover short fixed sequences, rarely crossing growth or tombstone boundaries.",
 ["c/src/hash.c","c/src/hashset.c","c/src/bitvector.c","c/include/bitvector.h","c/src/priorityqueue.c","c/src/array.c","c/src/mempool.c","c/src/multimapper.c"],
 [("open addressing with tombstones","c/src/hash.c"),("inline bit operations","c/include/bitvector.h"),("bounded heap","c/src/priorityqueue.c")],
 ["container contents after each operation"])
p("C23","Highlighting shows real field text with exactly the matches marked",
 "For every query, stored field with positions and offsets, excerpt length, excerpt count and tags, each excerpt with the tags and ellipses removed is a contiguous piece of the stored field, excerpts are in text order and do not overlap, and every marked region is text of tokens that the query matches in that field. Asking for the whole field returns it unchanged apart from the tags.",
 ["inputs","configurations"],"all documents, queries and highlighting parameters",
 "Tests highlight one sentence with a few parameter choices.",
 ["c/src/search.c","c/src/q_phrase.c","c/src/q_span.c","c/src/q_boolean.c","c/src/q_multi_term.c","c/src/q_range.c"],
 [("excerpt selection","c/src/search.c searcher_highlight, excerpt_*"),("match vectors","get_matchv_i of every query; c/src/search.c matchv_*")],
 ["highlight output, match vectors"])
p("C24","The memory used by the library is never misused or leaked",
 "No sequence of public API calls, including ones the library refuses with an error (arguments out of range such as document numbers that do not exist, unparsable queries, settings that contradict each other, a lock that is held, files or fields that are missing, an out of date reader), makes the library read or write outside its allocations, use freed or uninitialised memory, free twice, or execute undefined behaviour; after everything is closed, all memory and file handles are released, also after operations that reported such an error. (Not covered: what is left behind when the file system itself fails or when an index is damaged.)",
 ["inputs","histories"],"all API call sequences, including error paths",
 "Tests run without sanitizers and mostly on success paths.",
 ["c/src"],
 [("ownership and reference counts","whole C library")],
 ["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer reports"])
p("C25","The Ruby Index keeps keys unique and reflects every update",
 "Through the Ruby Index class, after any sequence of add, update, delete, batch and query update, query delete, add_indexes, flush, optimize and reopen, the documents read, counted and searched equal those of a simple list model: with a key, adding a document replaces the ones whose (untokenized) key fields have the same values; update, batch_update, query_update and delete change exactly the documents they name (by id, by document number, or by query) and only the fields given; every operation is visible to the next read on the same index, and after a flush to other readers; stored values, strings or lists of strings, compressed or not, round-trip byte for byte; bad arguments are refused with an error and change nothing.",
 ["histories","configurations"],"all operation histories and key/id/auto-flush settings",
 "Ruby tests use short fixed scripts.",
 ["ruby/lib/ferret/index.rb","ruby/ext/r_index.c","ruby/ext/r_search.c"],
 [("key handling","ruby/lib/ferret/index.rb <<, delete, update, query_update"),("latest reader","ruby/lib/ferret/index.rb ensure_reader_open")],
 ["size, each, search_each, documents"])
p("C26","Ruby objects stay valid under garbage collection",
 "Ruby objects wrapping the library (documents, lazy documents, readers, writers, searchers, queries, filters, sorts, analyzers, token streams, enumerators, directories) return correct results and never crash, whenever the (non-compacting) garbage collector runs and in whatever order unreferenced objects are finalised: an object keeps working while only it is referenced, although what it was made from is not (any more), and documents read from a reader outlive it, closed or collected.",
 ["schedules","histories"],"all garbage-collection points and object lifetimes",
 "Ruby tests run with the default collector schedule.",
 ["ruby/ext/ferret.c","ruby/ext/r_index.c","ruby/ext/r_search.c","ruby/ext/r_analysis.c","ruby/ext/r_store.c","ruby/ext/r_utils.c","ruby/ext/r_qparser.c"],
 [("mark/free functions and object table","ruby/ext/*.c")],
 ["results under GC stress"])
p("C27","Number encodings preserve order and value",
 "Formatting with the lexicographic helpers preserves order as string order: to_s_lex for all integers, to_s_pad for non-negative integers that fit the width, and to_s_lex of Date, DateTime and Time at each precision from year to second; decoding gives the integer, or the date at that precision, back. The byte encoding of norms is monotone, never turns a positive number into zero, and encoding a decoded byte gives the byte back.",
 ["inputs"],"all numbers in range",
 "Tests sample a few numbers.",
 ["ruby/lib/ferret/number_tools.rb","c/src/helper.c"],
 [("padding","ruby/lib/ferret/number_tools.rb"),("float byte codec","c/src/helper.c")],
 ["encoded strings / bytes"])
p("C28","Raised errors reach exactly the right handler and cleanup always runs",
 "For every nesting of protected blocks, handlers and cleanup sections, and whatever point raises, each cleanup section that was entered runs exactly once, a handled error stops, an unhandled one propagates to the nearest enclosing handler with its code, and errors in one thread never reach another.",
 ["programs","schedules"],"all nestings of try/handler/finally with raises at any point, in several threads",
 "Tests hand-write seven nestings.",
 ["c/include/except.h","c/src/except.c"],
 [("context stack","c/src/except.c xpush_context, xpop_context, xraise")],
 ["trace of body, handler and cleanup events"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))

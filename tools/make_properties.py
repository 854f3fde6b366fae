#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })


I = "bm25s/__init__.py"
prop("R01", "Threaded retrieval is correct under every worker schedule",
     "Retrieving a batch of queries with any number of worker threads returns, for every query and in query order, a correct top-k of the index: the k documents with the highest scores under the configured BM25 variant, with those scores, and unknown or empty queries scoring zero everywhere. This holds no matter how the workers are scheduled or interleaved.",
     ["schedules", "inputs", "configurations"],
     "every interleaving of the retrieval workers, every batch size, thread count, k, variant, weight mask and query form",
     "No existing test passes n_threads; the tests retrieve one or two fixed queries sequentially on a four document corpus, so no schedule other than the sequential one is ever run.",
     [I, "bm25s/selection.py", "bm25s/scoring.py"],
     [("thread pool map over queries, ordered results", I + ": BM25.retrieve"), ("per-query accumulation in a private score array", I + ": BM25.get_scores_from_ids")],
     [("scores", "csc arrays of precomputed scores shared by all workers", I), ("vocab_dict", "token to id map shared by all workers", I)],
     ["return value of retrieve"])
prop("R02", "Callers sharing one index do not disturb each other",
     "When several threads query one shared index at the same time, each call returns exactly what it would return if it ran alone, whatever its own k, weight mask, corpus, thread count or return form. Querying changes neither the index nor anything the caller passed in.",
     ["schedules", "inputs"],
     "every interleaving of two or more concurrent retrieval or scoring calls on one retriever",
     "Every existing test drives a retriever from a single thread, so shared mutable state between calls can never be observed.",
     [I, "bm25s/selection.py", "bm25s/numba/retrieve_utils.py"],
     [("retrieval keeps all per-call state in locals", I + ": BM25.retrieve"), ("scores accumulate into a fresh array", I + ": _compute_relevance_from_scores")],
     [("scores/vocab_dict/nonoccurrence_array", "index state read by all calls", I)],
     ["return values of concurrent calls", "index arrays and caller arguments after the calls"])
prop("R03", "A failure inside retrieval surfaces and is contained",
     "If a worker, an allocation or a thread start fails, or the caller is interrupted, at any point during a retrieval, the call raises and never returns a partial or wrong answer. No worker is left running, process-wide settings are as they were before the call, and the same index answers later queries correctly.",
     ["fault_sequences", "schedules"],
     "every fault position inside a retrieval, in the caller or any worker, under every schedule, on every backend",
     "Tests never make anything inside a retrieval fail; they only pass malformed arguments to a sequential call.",
     [I, "bm25s/numba/retrieve_utils.py"],
     [("executor context manager joins workers; map re-raises worker errors", I + ": BM25.retrieve"), ("numba thread count is set for the call and put back", "bm25s/numba/retrieve_utils.py: _retrieve_numba_functional")],
     [("numba thread count", "process/thread-wide setting changed during a call", "bm25s/numba/retrieve_utils.py")],
     ["exception or return value of retrieve", "live threads and numba thread count afterwards"])
prop("R04", "Answers do not depend on how queries are batched",
     "The answer to a query is the same whether it is asked alone or at any position in any batch, next to empty, unknown or duplicate queries, and however a workload is split into batches. It is also the same when the index arrays and the corpus are reloaded from disk between batches, and merging the per-batch results gives the result of the single batch.",
     ["histories", "inputs", "configurations"],
     "every split of every query workload into batches and every placement of reloads (memory-mapped or not) between them",
     "Tests only issue single fixed batches of well-formed queries and never reload between them; the Mmap+Reload mode of the README is not tested at all.",
     [I, "bm25s/utils/corpus.py"],
     [("queries are normalised once per batch then answered one by one", I + ": BM25.retrieve"), ("Results.merge", I), ("load_scores / corpus.load", I)],
     [("scores", "arrays replaced by load_scores mid-workload", I)],
     ["return values of retrieve and Results.merge"])
prop("R05", "All retrieval backends rank alike under any loop schedule",
     "For every index, batch of queries, k and weight mask, the numpy, jax and numba backends (including the JIT-ready scorer) return the same scores, and the same documents up to ties between equal scores. For the parallel backend this holds whatever the order in which its loop iterations run and however they interleave.",
     ["schedules", "configurations", "inputs"],
     "every iteration order and interleaving of the parallel retrieval loop, every backend, variant, mask and batch",
     "Two fixed queries are compared between numba and numpy; the mask test never looks at the numba result; the order of the parallel iterations is up to the runtime and is never varied.",
     ["bm25s/numba/retrieve_utils.py", "bm25s/numba/selection.py", "bm25s/selection.py", I],
     [("parallel loop writes row i only", "bm25s/numba/retrieve_utils.py: _retrieve_internal_jitted_parallel"), ("heap based top-k", "bm25s/numba/selection.py"), ("argpartition / jax top-k", "bm25s/selection.py")],
     None, ["return values of retrieve on each backend"])
prop("I01", "A failed or interrupted re-index leaves the old index serving",
     "If building an index fails, runs out of memory or is interrupted at any point, the retriever keeps answering, and saving, exactly as it did before the attempt, and a later build on the same retriever succeeds completely.",
     ["fault_sequences", "histories"],
     "every fault position inside an index build (source stream, allocation, interrupt), every previous and new corpus and variant",
     "Tests build each index once, successfully; no build is ever made to fail on a retriever that already holds an index.",
     [I, "bm25s/scoring.py"],
     [("state is assigned after the build", I + ": BM25.index, build_index_from_ids")],
     [("scores, vocab_dict, nonoccurrence_array, unique_token_ids_set", "must change together or not at all", I)],
     ["retrieve/save after a failed index call"])
prop("I02", "An index is reproducible across processes and input forms",
     "Indexing the same tokenised documents gives the same answers in every process, whatever the process's hash randomisation, and whichever accepted form the corpus arrives in: token lists, ids with a vocabulary, tokenizer output, or an iterable that can be read only once. Query answers likewise do not depend on which process tokenised the query or how it numbered its tokens.",
     ["configurations", "inputs"],
     "every hash seed of the indexing and querying processes, every input form, every corpus",
     "The test suite runs in one process with PYTHONHASHSEED=0, so iteration order of the token sets never varies; one-shot iterables are never indexed.",
     [I, "bm25s/tokenization.py"],
     [("vocabulary numbering from a set", I + ": get_unique_tokens, build_index_from_tokens"), ("query tokens go through strings, not foreign ids", "bm25s/tokenization.py: convert_tokenized_to_string_list")],
     [("vocab_dict", "token numbering, differs between processes", I)],
     ["answers of indexes built in different processes"])
prop("P01", "Save, restart and load preserve the index in every environment",
     "After any sequence of builds, saves and overwrites, an index reloaded in another process, in any supported environment (with or without the fast JSON library, memory-mapped or not, any locale or hash seed), has the same configuration, answers every query with the same documents and scores, and returns for each position the document that was saved at that position. A directory never mixes what different saves wrote to it; a save without a corpus leaves the corpus stored there as it was.",
     ["histories", "configurations", "inputs"],
     "every history of index/save/load/restart/overwrite steps over every environment, every variant, parameter set and corpus content",
     "Tests save one index and load it once in the same process; the loaded corpus is hardly compared, and cross-environment reloads, overwrites and chains are never run.",
     [I, "bm25s/utils/corpus.py", "bm25s/utils/json_functions.py"],
     [("save writes arrays, vocabulary, parameters, corpus and line index", I + ": BM25.save"), ("load rebuilds from them", I + ": BM25.load, load_scores")],
     [("index directory", "csc arrays, vocab, params, corpus, mmindex", "file system")],
     ["answers and configuration of the reloaded index"])
prop("P02", "A crash during save never leaves a mixed index",
     "If the process dies at any instant while an index is being saved into a directory, a later load from that directory either raises or gives completely the previously saved index or completely the new one, with scores, vocabulary, parameters and corpus all from the same save. Saving again then makes the directory load as the new index.",
     ["crash_points", "histories"],
     "every crash instant (including torn writes) inside a save, over empty and already used directories, every pair of indexes, repeated crashes",
     "No test kills a process; a save is only ever observed after it completed.",
     [I, "bm25s/utils/corpus.py"],
     [("order and atomicity of the file writes of a save", I + ": BM25.save"), ("corpus and line index written together", "bm25s/utils/corpus.py: save_mmindex")],
     [("index directory", "must not combine files of two saves", "file system")],
     ["load + retrieve after the crash"])
prop("P03", "Disk errors during save are reported and do no damage",
     "If an I/O error or a full disk hits a save, the save raises, the in-memory index keeps answering, and the directory afterwards loads as the complete old index, as the complete new one, or not at all; when the disk merely fills up while writing, the previously saved index stays loadable and no unfinished file is left behind. Once the fault is gone, saving again succeeds completely.",
     ["fault_sequences", "histories"],
     "every position and kind of disk fault (ENOSPC, EIO, EMFILE, EDQUOT, short writes, EINTR) in a save, over empty and already used directories",
     "Tests always write to a healthy disk with free space.",
     [I, "bm25s/utils/corpus.py"],
     [("write errors propagate out of save", I + ": BM25.save")],
     [("index directory", "state after a failed save", "file system")],
     ["exception of save", "load after the failed save", "retry"])
prop("P04", "A loaded index is isolated from later saves to its directory",
     "An index that is loaded, memory-mapped or not, with or without its corpus, keeps answering from the state it loaded and returns the documents it loaded, whatever is saved to its directory afterwards, by itself, by another index or by another process, and however far such a save gets. In particular saving a memory-mapped index back to its own directory preserves it.",
     ["histories", "schedules", "crash_points"],
     "every interleaving of reads from a loaded index with complete, partial or crashed saves into the same directory",
     "Tests never save into a directory from which a live index was loaded.",
     [I, "bm25s/utils/corpus.py"],
     [("memory maps over index files and corpus", I + ": BM25.load_scores; bm25s/utils/corpus.py: JsonlCorpus.load"), ("save replaces files", I + ": BM25.save")],
     [("memory maps", "share pages with the files on disk", "bm25s/utils/corpus.py")],
     ["answers of the loaded index before, during and after a save"])
prop("P05", "A damaged or unreadable index directory is never served wrongly",
     "If any file of a saved index is missing, empty or truncated, or reading it fails with an I/O error, then loading raises, or the loaded index answers each query either exactly as the undamaged index or with an error. It never returns other scores or other documents. If reloading the arrays of a live index fails, that index keeps answering as before. (A missing corpus file counts as an index saved without a corpus.)",
     ["fault_sequences", "configurations"],
     "every file, truncation point and read fault during load and first use, memory-mapped or not, with and without corpus",
     "Tests only load complete directories from a healthy disk.",
     [I, "bm25s/utils/corpus.py"],
     [("parse errors and missing files propagate", I + ": BM25.load, load_scores"), ("non-occurrence array is mandatory for its variants", I + ": BM25.load")],
     [("index directory", "possibly incomplete", "file system")],
     ["exception of load or retrieve", "answers of the loaded index"])
prop("P06", "Random access to a JSONL corpus equals reading it through",
     "For any unmodified JSONL file, accessing records of the corpus by position, slice, list or index array returns the records a sequential parse of the file gives, on the first open, through the cached line index, and after closing and reopening. A crash or disk error while the line index is being created never makes a later open fail or return a wrong record.",
     ["crash_points", "fault_sequences", "inputs", "histories"],
     "every file content, access history and every crash or disk-fault position while the line index is built and stored",
     "Tests read 500 short ASCII lines once with an intact line index; cache creation is never interrupted.",
     ["bm25s/utils/corpus.py"],
     [("byte offsets of lines", "bm25s/utils/corpus.py: find_newline_positions"), ("cached offsets", "bm25s/utils/corpus.py: save_mmindex, load_mmindex"), ("line lookup", "bm25s/utils/corpus.py: get_line, JsonlCorpus")],
     [("line index file", "cache next to the corpus", "file system")],
     ["records returned by the corpus"])
prop("P07", "Concurrent readers of a memory-mapped corpus get their own records",
     "When several threads read records from one open memory-mapped corpus, or retrieve documents through one index that uses it, every access returns the record it asked for under every interleaving. The same holds in processes forked while it is open, and when each reader, in one process or in several, opens the corpus itself, also when they all open it for the first time at once.",
     ["schedules"],
     "every interleaving of concurrent reads on one open corpus",
     "The corpus is only ever read from one thread in the tests.",
     ["bm25s/utils/corpus.py", I],
     [("position and read on one shared map", "bm25s/utils/corpus.py: get_line")],
     [("mmap object", "shared between readers, has a file position", "bm25s/utils/corpus.py")],
     ["records returned to each thread"])
prop("P08", "A load that races with a save is never mixed",
     "While one process saves an index, or a tokenizer, into a directory, another process may load from it at any moment, even if the saver dies half-way: the load either raises or gives completely one index that was in the directory at some time during the load, with scores, vocabulary, parameters and documents of one save. A load that no save overlaps succeeds unless a saver died in it, what was loaded stays that index while saves go on, and once the saves are over the index saved last is loaded.",
     ["schedules", "histories"],
     "every interleaving of one process's saves with other processes' loads from one directory, memory-mapped or not, with and without the corpus or a cached line index",
     "No test runs a second process or thread, so a load is never observed while a save is under way.",
     [I, "bm25s/utils/corpus.py", "bm25s/tokenization.py"],
     [("files are put in place one by one, the parameters file last", I + ": BM25.save"), ("a load is refused if the parameters file was replaced meanwhile", I + ": BM25.load"), ("line index belongs to the corpus it was made for", "bm25s/utils/corpus.py: load_mmindex, JsonlCorpus.load")],
     [("index directory", "shared between a saver and loaders", "file system")],
     ["exception of load", "answers and documents of the loaded index"])
prop("P09", "An interrupted save or load does no damage",
     "Whenever an interrupt (Ctrl-C) strikes or an allocation fails during a save or a load of an index, its arrays, its corpus or a tokenizer, the caller sees it unless the call completes properly; what is in memory is what it was before (a loading tokenizer may also have loaded completely), and the directory holds completely the old or completely the new state or refuses to load. The same call again succeeds and is complete.",
     ["fault_sequences", "histories"],
     "every bytecode of every persistence call as the place where the interrupt or the failed allocation strikes",
     "No test raises anything inside a save or a load, and the places where it may happen number in the thousands.",
     [I, "bm25s/utils/corpus.py", "bm25s/tokenization.py"],
     [("index saved and loaded", I + ": BM25.save, BM25.load, BM25.load_scores"), ("corpus opened and reopened, line index made", "bm25s/utils/corpus.py: JsonlCorpus"), ("tokenizer saved and loaded", "bm25s/tokenization.py: Tokenizer.save_vocab, load_vocab, save_stopwords, load_stopwords")],
     [("scores, vocabulary and corpus of a live object", "one process", I), ("index directory", "one process", "file system")],
     ["exception raised to the caller", "answers and documents of the object in memory", "what a fresh load gives"])
T = "bm25s/tokenization.py"
prop("T01", "Token ids stay one-to-one and stable through any history",
     "Through any history of tokenize calls, streams that are interleaved or abandoned part-way, inputs or stemmers that fail, interrupts, index builds on the vocabulary, and resets, every vocabulary token keeps one id that no other token has. Decoding the returned ids gives exactly the tokens of the text that are in the vocabulary.",
     ["histories", "fault_sequences", "schedules"],
     "every sequence of tokenizer operations with every interleaving of its streams and every failure position",
     "Tests tokenize one fixed corpus, then a query; streams are never interleaved or abandoned, and nothing ever fails in between.",
     [T, I],
     [("id allocation", T + ": Tokenizer.streaming_tokenize"), ("decoding", T + ": Tokenizer.decode")],
     [("word_to_id, stem_to_sid, word_to_stem", "the vocabulary, grown by every call", T)],
     ["ids, vocabulary and decoded tokens"])
prop("T02", "Tokenizer state survives saves, crashes and restarts",
     "A tokenizer whose vocabulary and stopwords were saved and loaded again, in any environment, tokenises every text to the same ids and keeps growing the vocabulary without reusing an id. If the process dies or the disk fails during a save, or reading fails, a later load either raises and leaves the loading tokenizer as it was, or gives completely the old or completely the new state; the vocabulary and the stopwords are saved by separate calls and judged separately.",
     ["crash_points", "fault_sequences", "histories", "configurations"],
     "every vocabulary and stopword content, every crash and disk-fault position in save and load, every pair of environments",
     "One test reloads one ASCII vocabulary in the same process; stopwords are never reloaded in the stable tests and no fault is ever injected.",
     [T, "bm25s/utils/json_functions.py"],
     [("JSON files written and read", T + ": save_vocab, load_vocab, save_stopwords, load_stopwords"), ("encoding and escaping", "bm25s/utils/json_functions.py")],
     [("vocab.tokenizer.json, stopwords.tokenizer.json", "persistent tokenizer state", "file system")],
     ["tokenization after reload"])
prop("T03", "Concurrent query tokenization equals sequential tokenization",
     "When several threads tokenise queries with one shared tokenizer without adding new tokens, each gets exactly the ids it would get alone under every interleaving, and no id of the vocabulary changes.",
     ["schedules", "inputs"],
     "every interleaving of concurrent tokenize calls in non-growing modes, with and without a stemmer",
     "No test shares a tokenizer between threads.",
     [T],
     [("idempotent caching of stems and ids", T + ": Tokenizer.streaming_tokenize")],
     [("word_to_stem, word_to_id", "caches written during query tokenization", T)],
     ["ids returned to each thread", "vocabulary afterwards"])
prop("T04", "Tokenising a text does not depend on process or output form",
     "Tokenising the same texts with the same options denotes the same token strings in every process, whatever its hash randomisation, and in every output form: ids with their vocabulary, strings, or the class-based tokenizer's ids, strings, tuple and stream. The vocabulary returned with ids is one-to-one and covers every returned id.",
     ["configurations", "inputs"],
     "every hash seed, option set and text, with and without a stemmer that merges tokens",
     "Tests run with one hash seed in one process.",
     [T],
     [("stemmed vocabulary numbered from a set", T + ": tokenize"), ("output conversion", T + ": tokenize, Tokenizer.tokenize, convert_tokenized_to_string_list")],
     None, ["token strings denoted by the result"])
H = "bm25s/hf.py"
prop("H01", "Publishing to and pulling from the hub round-trips under faults",
     "An index, tokenizer vocabulary or stopword list pulled from the hub is completely the one published at the requested revision, with the corpus when asked for. When the network fails anywhere during publishing or pulling, the call raises, the hub holds completely the old or completely the new content, and a retry succeeds; repositories are created private unless public is asked for, and the given token, branch and commit message are used throughout.",
     ["fault_sequences", "histories", "configurations"],
     "every history of publishes and pulls, every failing hub call (before or after its effect, or part-way through a download), every revision",
     "The hub module is only imported by the tests; none of its functions is ever called.",
     [H, I, T],
     [("create, save, upload", H + ": save_to_hub, save_vocab_to_hub, save_stopwords_to_hub"), ("download, load", H + ": load_from_hub, load_vocab_from_hub, load_stopwords_from_hub")],
     [("hub repository", "commits", "remote")],
     ["loaded index or tokenizer", "hub content"])
prop("H02", "Publishing protects local files and leaves nothing behind",
     "Publishing to the hub never changes or deletes files in a non-empty local directory unless overwriting was requested, keeps the published files in the local directory when that may be used, and removes every temporary directory it created, whether publishing succeeds or fails at any point.",
     ["fault_sequences", "configurations"],
     "every state of the local directory, overwrite choice and failure point of the save or the hub calls",
     "The hub module is never exercised by the tests.",
     [H],
     [("local or temporary directory choice", H + ": can_save_locally, is_dir_empty"), ("temporary directory removal", H + ": save_to_hub and siblings")],
     [("local_dir and temporary directory", "where files are staged for upload", "file system")],
     ["directory contents after the call"])
D = "bm25s/utils/beir.py"
prop("D01", "An interrupted download is never taken for a complete dataset",
     "After any sequence of failed, cut-off, interrupted or crashed downloads, fetching a dataset either raises or leaves the complete published content in place, and a fetch on a healthy network then succeeds without manual cleaning. An incomplete archive is never accepted by a later call, and a file of the dataset or its archive that has its final name has all of its published content.",
     ["fault_sequences", "crash_points", "histories"],
     "every sequence of network and disk faults and crash points over repeated fetches",
     "The download helper is not tested at all (there is no network in the test environment).",
     [D],
     [("download then extract", D + ": download_dataset")],
     [("archive zip", "cached download, reused if present", "file system")],
     ["files and records after the fetch"])
prop("D02", "Merging sub-collections is complete or not visible",
     "If merging the sub-collections of a dataset is interrupted, fails or crashes at any point, an incomplete merged file is never accepted by a later call. The merged data contains every record of every sub-collection exactly once, under its prefixed id, whatever the order in which the directory is listed and whatever characters the records contain, and the loaders return all documents, queries and relevance judgements.",
     ["crash_points", "fault_sequences", "inputs"],
     "every crash or disk-fault position during a merge, every directory listing order, locale and record content",
     "The merge and the loaders are not tested at all.",
     [D, "bm25s/utils/json_functions.py"],
     [("merge skipped if the merged file exists", D + ": merge_cqa_dupstack"), ("loaders", D + ": load_jsonl, load_corpus, load_queries, load_qrels")],
     [("merged corpus, queries, qrels", "cached merge result", "file system")],
     ["records returned by the loaders"])
prop("D03", "Processes that fetch a dataset at the same time do not damage it",
     "When several processes download, extract, merge or read one dataset in one directory at the same time, each call that returns leaves the complete published content in place and every later read gives all records; a call raises only if its own connection failed, also when another process dies half-way. Afterwards a further fetch finds or makes the complete dataset.",
     ["schedules", "fault_sequences"],
     "every interleaving of fetches, merges and reads of several processes, with any of their connections failing, over every state of the directory",
     "The download helper is not tested at all, let alone from two processes at once.",
     [D],
     [("files appear under their final name only when complete", D + ": download_dataset, merge_cqa_dupstack"), ("partial files have a name of their own per process", D + ": _write_when_complete, _extract_when_complete")],
     [("archive, extracted and merged files", "shared cache directory", "file system")],
     ["files and records after each fetch"])
prop("C01", "Work on separate objects does not interfere",
     "When several threads, or several processes, each tokenise, index, save, load, read corpora or fetch and merge datasets with objects and directories of their own, every piece of work gives exactly what it gives alone, whatever the others do, also when one of them fails, runs out of memory or dies. The same holds for work that queries or saves an index or a tokenizer that all of them share, and neither the shared objects nor process-wide settings change.",
     ["schedules", "fault_sequences"],
     "every interleaving of independent pieces of work in one process or several, with a failed allocation or the death of a process at any point",
     "The tests do one thing at a time in one thread; module-level state that two pieces of work share is never observed.",
     [I, "bm25s/scoring.py", "bm25s/tokenization.py", "bm25s/utils/corpus.py", D],
     [("all state is in locals or in the object", "the modules have no state of their own"), ("temporary names do not collide", I + ": BM25.save; " + D + ": _write_when_complete, _extract_when_complete")],
     [("module globals", "shared by all threads", "bm25s"), ("current directory, environment, settings of numpy and logging", "shared by all threads", "process")],
     ["outcome of each piece of work", "shared objects and settings afterwards"])
prop("M01", "Mapped and streamed data need not fit in memory",
     "An index loaded memory-mapped, from a directory or from the hub, with its documents, is loaded, queried and reloaded between batches by a process that may allocate only a fraction of the index's size, and answers exactly as the index held in memory. The same limit suffices to build the line index of a JSONL corpus and read its records one by one in any order, and to tokenise a stream of texts one at a time. Neither memory nor open files grow with the number of batches, reloads or records.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "every index, corpus and stream larger than the memory a process may allocate, and every history of loads, batches, reloads and reads within that limit",
     "The tests use tiny data and unlimited memory, so an array or a file that is read whole instead of mapped goes unnoticed.",
     [I, "bm25s/hf.py", "bm25s/utils/corpus.py", "bm25s/tokenization.py"],
     [("memory maps of the arrays", I + ": BM25.load, load_scores"), ("line index and memory map of the documents", "bm25s/utils/corpus.py: JsonlCorpus, find_newline_positions"), ("generator of token ids", "bm25s/tokenization.py: streaming_tokenize")],
     [("scores", "mapped arrays, replaced by load_scores", I), ("mmap_obj, file_obj", "mapped corpus, reopened by load", "bm25s/utils/corpus.py")],
     ["results and exceptions under a limit on allocations and open files"])
prop("B01", "The timer measures running time only, under any clock behaviour",
     "For any sequence of start, pause, resume and stop at any times, the elapsed time of a timer is the time it was running, excluding paused intervals, independently of other timers and of jumps of the wall clock. The timer's status queries agree with that sequence.",
     ["histories", "configurations"],
     "every sequence of timer operations over every simulated clock history, including wall clock jumps",
     "The benchmark module is not tested; real clocks cannot be made to jump in a unit test.",
     ["bm25s/utils/benchmark.py"],
     [("monotonic clock and interval accumulation", "bm25s/utils/benchmark.py: Timer")],
     [("results", "per-timer start/last/elapsed", "bm25s/utils/benchmark.py")],
     ["elapsed, has_started, has_stopped, is_paused, is_resumed"])
# ---- properties that this technique does not decide -----------------------------------
prop("N01", "Scores equal the published BM25 variant formulas",
     "For every corpus, parameter choice and variant combination, including extreme parameter values, each document score equals the published formula of the configured term-frequency and inverse-document-frequency variant to floating point accuracy.",
     ["inputs", "configurations"],
     "every corpus, k1, b, delta and combination of term-frequency and idf variant",
     "Comparison tests against other libraries need downloads and cover a few datasets and defaults.",
     ["bm25s/scoring.py", I],
     [("term-frequency and idf scorers", "bm25s/scoring.py")], None, ["get_scores"])
prop("N02", "Top-k selection is exact for every score array",
     "For every finite score array and every admissible k, selection returns k distinct positions holding the k largest values, in non-increasing order when sorting is requested.",
     ["inputs"], "every array (ties, negatives, infinities), dtype and k",
     "Tests use one random array of 2000 distinct values.",
     ["bm25s/selection.py", "bm25s/numba/selection.py"],
     [("argpartition, heap, jax top-k", "bm25s/selection.py, bm25s/numba/selection.py")], None, ["topk"])
prop("N03", "Token pattern, case folding and stopword lists behave as documented",
     "Tokens are the matches of the configured pattern on the (optionally lowercased) text, without the words of the selected language's stopword list, for every text and language.",
     ["inputs", "configurations"], "every text, pattern and stopword language",
     "Only English defaults on a few sentences are tested.",
     [T, "bm25s/stopwords.py"],
     [("regular expression splitter and stopword tables", T + ": _infer_stopwords")], None, ["tokenize"])
prop("N04", "Evaluation metrics equal those of the reference evaluator",
     "NDCG, MAP, recall and precision reported for any run and judgements equal the reference evaluator's averages over the judged queries.",
     ["inputs"], "every run and set of judgements", "Evaluation is not tested.",
     [D], [("aggregation of pytrec_eval output", D + ": evaluate, postprocess_results_for_eval")], None, ["evaluate"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that the text is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
S = "src/litdata/streaming/"; R = "src/litdata/processing/"; U = "src/litdata/utilities/"

prop("C01", "Each epoch delivers every sample exactly once across ranks and workers",
 "In every epoch, the samples delivered to all ranks and all loader workers together are exactly the samples of the dataset, each once, when drop_last is off; with drop_last on no sample is delivered twice, every rank receives the same number, and fewer than one global round of batches (batch size x ranks x workers, plus what does not fill a batch) is left out. "
 "This holds for shuffled and unshuffled datasets, every epoch, single and multi node, and whatever order processes and threads run in.",
 ["schedules", "configurations", "histories"],
 "every interleaving of ranks, loader workers and background download/delete threads; every topology (nodes, ranks, workers), batch size, chunk layout, seed, epoch",
 "Tests sample a few fixed topologies with real processes and one lucky schedule each; duplicates or losses appear only for particular splits of chunks over workers combined with particular interleavings of eviction and reading.",
 [S+"dataset.py", S+"shuffle.py", U+"shuffle.py", S+"dataloader.py", S+"sampler.py", U+"env.py"],
 [("assignment of chunk intervals to workers", U+"shuffle.py:_associate_chunks_and_intervals_to_workers"),
  ("per worker iteration", S+"dataset.py:StreamingDataset.__iter__/__next__"), ("rank/worker detection", U+"env.py")],
 ["items returned by iterating StreamingDataset / StreamingDataLoader on every rank"])

prop("C02", "A delivered sample is always byte-for-byte the sample that was written",
 "Every sample that streaming hands to the user equals the sample written at that position, no matter how chunks are downloaded, decompressed, shared through one cache directory by several processes, evicted, fetched again or left half-written by a killed process. "
 "A reader may wait or raise, but it never returns a truncated, stale, mixed-up or partially downloaded sample.",
 ["schedules", "crash_points", "fault_sequences", "configurations"],
 "every interleaving of readers, downloads, decompressions and evictions on a shared cache; every kill point during a download; torn and slow writes; every compression/eviction setting",
 "Tests read back complete local caches; half-written files, re-downloads after eviction and two processes racing on one cache file need schedules and crash points tests do not control.",
 [S+"reader.py", S+"config.py", S+"downloader.py", S+"item_loader.py", S+"cache.py"],
 [("atomic publication of downloads", S+"downloader.py"), ("size check before reading a chunk", S+"item_loader.py:PyTreeLoader.load_item_from_chunk"),
  ("decompression into the cache", S+"config.py:ChunksConfig.try_decompress"), ("chunk reference counting", S+"config.py / reader.py:PrepareChunksThread")],
 ["value of every delivered item compared with a reference computed from its index"])

prop("C03", "The order of delivered samples never depends on timing, cache state or past runs",
 "For a fixed dataset, seed, epoch and topology each rank receives the same samples in the same order in every run, regardless of scheduling, storage latency, transient failures, cache size limits or what the cache already contains. "
 "Different epochs of a shuffled dataset use different orders, and an unshuffled single-worker dataset is delivered in storage order.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "every schedule and latency pattern, warm, cold or partially evicted cache, any number of earlier epochs or processes, every topology",
 "Tests compare two runs under one schedule each; order leaks show only when a download, eviction or worker finishes at an unusual moment.",
 [S+"shuffle.py", S+"dataset.py", S+"dataloader.py", S+"reader.py", S+"combined.py"],
 [("seeded permutations", S+"shuffle.py:FullShuffle"), ("ordered batch hand-over", S+"dataloader.py:_StreamingMultiProcessingDataLoaderIter")],
 ["sequence of delivered items per rank"])

prop("C04", "Resuming from a saved loader state continues exactly where it stopped",
 "If a StreamingDataLoader's state is saved after any number of batches and loaded into a fresh loader with the same configuration (new process, cold or warm cache), the batches that follow are exactly the batches the uninterrupted run would have produced, for the rest of that epoch and for the following epochs. "
 "This also holds when the state is saved and restored repeatedly within one epoch, and on every rank of a distributed run.",
 ["histories", "crash_points", "schedules", "configurations"],
 "every stopping point of every epoch, chains of several save/restore steps, every topology, batch size, shuffle setting and chunk layout, all schedules",
 "Tests stop at one or two points of a tidy configuration; off-by-one errors appear at chunk, worker and epoch boundaries and after a second restore.",
 [S+"dataset.py", S+"dataloader.py"],
 [("replay of consumed samples", S+"dataset.py:_replay_sampling/_replay_chunks_sampling"), ("worker rotation on restore", S+"dataloader.py:StreamingDataLoader.load_state_dict, _try_put_index")],
 ["batches produced after load_state_dict against the uninterrupted run"])

prop("C05", "Combined datasets deliver, mix and end exactly as configured",
 "A combined dataset that iterates over all its members delivers every sample of every member exactly once per epoch; a weighted one delivers each member's samples in that member's own order without skipping or repeating any, follows the seed alone, never draws from a zero-weight member and ends when a member it needs is exhausted; with per-stream batching no batch mixes members. "
 "This holds under every schedule of loader workers and every storage timing.",
 ["schedules", "configurations", "histories"],
 "every schedule of workers and downloads, member sizes, weights, seeds, batch sizes, batching method, epochs",
 "Tests use mock datasets of numbers in one process; interaction of weights, exhaustion, workers and real streaming members is not sampled.",
 [S+"combined.py", S+"dataloader.py", S+"dataset.py"],
 [("seeded member choice", S+"combined.py:_CombinedDatasetIterator"), ("epoch and worker propagation", S+"combined.py:CombinedStreamingDataset"), ("collation", S+"dataloader.py")],
 ["items and batches of a StreamingDataLoader over a CombinedStreamingDataset"])

prop("C06", "A combined dataset resumes exactly where its saved state stopped",
 "If the state of a loader over a combined dataset is saved after any number of batches and loaded into a fresh loader of the same configuration, the remaining batches of the epoch are exactly those the uninterrupted run would have produced.",
 ["histories", "crash_points", "schedules", "configurations"],
 "every stopping point while no member is exhausted, weights, seeds, number of workers and batch sizes, every schedule",
 "Tests restore at one point of one configuration; the random member choice and each member's own position must be rebuilt for every prefix.",
 [S+"combined.py", S+"dataloader.py", S+"dataset.py"],
 [("replay of member choices", S+"combined.py:_CombinedDatasetIterator"), ("per-worker sample counters", S+"dataloader.py:StreamingDataLoader.state_dict")],
 ["batches after load_state_dict against the uninterrupted run"])

prop("C07", "Streaming always makes progress: an epoch finishes once storage answers",
 "As long as storage eventually answers, an epoch completes within a bounded time after the last fault or delay: no interleaving of reading, prefetching, eviction and worker shutdown leaves a reader waiting for a chunk that nobody will fetch. "
 "With healthy storage no reader ever has to wait for a recovery timeout.",
 ["schedules", "fault_sequences", "configurations"],
 "every interleaving of readers with prefetch and eviction on private or shared caches, every cache limit, prefetch depth and worker count, slow or briefly unavailable storage",
 "A lost wake-up or a chunk deleted between download and read hangs for minutes or forever but only under rare schedules; a test that hits it is called flaky.",
 [S+"reader.py", S+"item_loader.py", S+"config.py", S+"downloader.py"],
 [("prefetch loop", S+"reader.py:PrepareChunksThread.run"), ("forced re-download", S+"reader.py / item_loader.py"), ("reference counts", S+"config.py")],
 ["simulated time between requests and deliveries; end of epoch"])

prop("C08", "The cache stays within its configured size while streaming",
 "While a dataset is streamed from remote storage with a cache size limit, the chunk data in the cache directory never exceeds the limit by more than the configured prefetch window (plus the chunks being read and one in flight) per reader; chunks still in use are never the ones removed. "
 "Data that is not a cache (a local dataset without remote storage) is never deleted by reading it.",
 ["schedules", "histories", "configurations"],
 "every interleaving of download, read and eviction; every limit, prefetch depth, chunk size, worker count, epoch count",
 "Unit tests look at the directory once at the end with generous sleeps; the bound must hold at every moment of every schedule.",
 [S+"reader.py", S+"config.py", S+"cache.py"],
 [("eviction on pressure", S+"reader.py:PrepareChunksThread._maybe_delete_chunks"), ("reference counts", S+"reader.py / config.py")],
 ["bytes of chunk files in the cache directory after every simulated filesystem operation"])

prop("C09", "Storage failures end in recovery or a prompt error, never silent loss",
 "A transient failure of storage while streaming is either recovered, with the complete and correct data delivered, or reported as an error; a permanent failure is reported as an error to the consumer within a bounded time. "
 "In no case is a sample silently skipped or repeated, wrong data delivered, or the consumer left waiting forever.",
 ["fault_sequences", "schedules", "crash_points"],
 "every position, kind and number of failing storage operations (error, missing object, partial transfer, disk full, I/O error), on every schedule and worker count",
 "Tests mock one failing call; real failures strike any of many operations, in threads whose exceptions are easy to lose.",
 [S+"downloader.py", S+"reader.py", S+"item_loader.py", S+"config.py", S+"dataset.py"],
 [("download errors in the prefetch thread", S+"reader.py"), ("wait with forced download and deadline", S+"item_loader.py"), ("atomic rename", S+"downloader.py")],
 ["outcome of the epoch: complete and correct, or an exception; simulated time to the error"])

prop("C10", "Random access returns the right sample under any access history",
 "Indexing or slicing a streaming dataset returns, for every index in range, the sample written there, in any order of accesses, repeated accesses, accesses interleaved with iteration, before or after an epoch, with or without eviction.",
 ["histories", "schedules", "configurations"],
 "every sequence of index, slice, len and iteration operations, cold, warm or size-limited cache, local or remote, every schedule of the background thread",
 "Tests index a complete dataset in order; reuse of open chunk state, eviction and leftover threads only matter for longer mixed histories.",
 [S+"dataset.py", S+"cache.py", S+"reader.py", S+"config.py", S+"item_loader.py"],
 [("index to chunk mapping", S+"config.py:_get_chunk_index_from_index"), ("chunk switching", S+"reader.py:BinaryReader.read"), ("open-file reuse", S+"item_loader.py")],
 ["dataset[i], dataset[a:b], len(dataset)"])

prop("C11", "A republished dataset is never served from a stale cache",
 "When the remote dataset is replaced by a new version at the same location, every dataset object created afterwards delivers only samples of the new version, whatever the old version left in the cache and however many processes start at the same time. "
 "An unchanged remote dataset keeps its cache and delivers the same data.",
 ["histories", "schedules", "crash_points"],
 "every history of publish/read/partial read/kill steps, default or explicit cache directory, concurrent starters, every schedule",
 "Tests check that a directory name changes; stale chunks, concurrent clean-up and leftovers of killed readers are histories.",
 [U+"dataset_utilities.py", S+"dataset.py", S+"config.py", S+"cache.py"],
 [("cache directory keyed by dataset version", U+"dataset_utilities.py:_try_create_cache_dir"), ("index refresh", U+"dataset_utilities.py:_clear_cache_dir_if_updated / _read_updated_at")],
 ["samples delivered after a republish"])

prop("C12", "optimize writes every produced sample exactly once, in each worker's order",
 "A run of optimize that returns leaves a dataset that, read back, contains exactly the samples the user function produced for all inputs: none lost, none twice, none altered, with the samples of one input contiguous and in production order. "
 "This holds for every number of workers, nodes, downloaders and uploaders, chunk size setting and compression, and every interleaving of them.",
 ["schedules", "configurations", "inputs"],
 "every interleaving of workers, downloaders, uploaders and removers; local and cloud output; chunk sizes, item sizes, worker and node counts, generator or plain functions",
 "Tests run small inputs with whatever schedule the OS gives; losses happen at hand-over points (last chunk, queue end markers, multi-node merge).",
 [R+"data_processor.py", R+"functions.py", S+"writer.py", S+"reader.py"],
 [("chunk cutting", S+"writer.py:BinaryWriter"), ("worker protocol and end markers", R+"data_processor.py:BaseWorker"), ("index merge", S+"writer.py:merge / data_processor.py:_done,_upload_index")],
 ["dataset read back through StreamingDataset and raw index after optimize returns"])

prop("C13", "An index never describes chunks that are not completely there",
 "At every instant, including after a crash or failure at any point of writing, optimizing, merging or appending, an index visible in the output location is complete and readable and every chunk it lists is present there in full; otherwise no index is visible and readers refuse the dataset.",
 ["crash_points", "schedules", "fault_sequences"],
 "every crash point of every process of the run, every failed or delayed upload, every interleaving of uploaders with the index publication",
 "Tests only look after success; publication order and non-atomic files matter only at the moment of a crash or a failed upload.",
 [R+"data_processor.py", S+"writer.py", R+"functions.py"],
 [("index written after chunks", S+"writer.py:write_chunks_index/merge"), ("uploader", R+"data_processor.py:_upload_fn"), ("final index upload", R+"data_processor.py:DataChunkRecipe._done/_upload_index")],
 ["output location after every simulated operation and after the crash"])

prop("C14", "An interrupted optimize with checkpoints resumes without loss or repeats",
 "If optimize with checkpointing enabled is killed at any point and started again with the same arguments, any number of times, the finally completed dataset contains exactly the samples of an uninterrupted run, each once. "
 "Checkpoints never refer to data that would be missing when they are used.",
 ["crash_points", "schedules", "histories"],
 "every kill point of every process (workers, uploaders, driver) in every incarnation, repeated crashes, every worker and uploader interleaving",
 "Tests fail the user function at one chosen input; kills between chunk upload and checkpoint or in the middle of writing it are not sampled.",
 [R+"data_processor.py", R+"functions.py", S+"writer.py"],
 [("checkpoint save", S+"writer.py:save_checkpoint"), ("checkpoint upload/copy", R+"data_processor.py"), ("resume", R+"data_processor.py:DataProcessor._load_checkpoint_config/_save_current_config")],
 ["dataset after the final successful run"])

prop("C15", "Append adds, overwrite replaces, and nothing outside the target is touched",
 "Optimizing into an existing dataset in append mode leaves all earlier samples plus the new ones, in overwrite mode exactly the new ones, and without a mode it refuses and changes nothing; a failed or killed append leaves the earlier samples readable. "
 "No mode ever changes or removes anything outside the target location, such as datasets with a similar name next to it.",
 ["histories", "crash_points", "fault_sequences", "configurations"],
 "every sequence of create/append/overwrite runs, local and cloud outputs with sibling datasets, crash points and transient storage errors in each run",
 "Tests append once locally with nothing around; prefix-named neighbours, many objects, storage errors and crashes are not sampled.",
 [R+"data_processor.py", R+"functions.py", S+"resolver.py", S+"fs_provider.py", S+"writer.py", R+"utilities.py"],
 [("mode checks", S+"resolver.py:_assert_dir_has_index_file"), ("index merge on append", R+"functions.py:optimize / utilities.py:read_index_file_content"), ("prefix deletion", S+"fs_provider.py")],
 ["samples of every dataset in the store before and after each run"])

prop("C16", "Processing never reports success when a worker, input or upload failed",
 "If the user function raises, a worker process is killed, an input cannot be fetched or an output cannot be stored, optimize and map end with an error in bounded time: they neither hang nor return as if everything had been processed.",
 ["fault_sequences", "crash_points", "schedules"],
 "every failing input, killed process (worker, downloader, uploader), failing storage operation, at any point on any schedule and worker count",
 "Tests raise in one worker; killed processes and failing uploads in helper processes are silent by nature.",
 [R+"data_processor.py", R+"functions.py", S+"fs_provider.py"],
 [("error queue and worker monitoring", R+"data_processor.py:DataProcessor.run/_exit_on_error"), ("upload error handling", R+"data_processor.py:_upload_fn")],
 ["outcome and simulated duration of optimize()/map()"])

prop("C17", "map runs the function exactly once per input and delivers all its outputs",
 "A run of map that returns has called the user function exactly once for every input, over all workers and nodes, and every file it wrote into its output folder is present at the destination with its complete content and nowhere else.",
 ["schedules", "configurations"],
 "every interleaving of workers, downloaders and uploaders, local and cloud destinations, worker and node counts, input weights, reordering",
 "Tests check a handful of files under one schedule; the split of inputs and the hand-over to uploaders race at the end of a run.",
 [R+"data_processor.py", R+"functions.py"],
 [("distribution of inputs", R+"data_processor.py:_map_items_to_workers_*"), ("output hand-over", R+"data_processor.py:BaseWorker._handle_data_transform_recipe, _upload_fn")],
 ["calls of the user function and files at the destination"])

prop("C18", "Inputs are complete while processed and the sources are never modified",
 "While the user function runs on an input that had to be fetched, the complete input file is available to it, and it is not removed or replaced until the function has finished with it; the original input files and objects are never modified or deleted.",
 ["schedules", "fault_sequences", "configurations"],
 "every interleaving of downloaders, workers and the remover of consumed files; inputs sharing files; slow transfers; workers reading from several inputs",
 "Tests use a single worker and tiny files; a remover that is one step early shows only when it overtakes a worker.",
 [R+"data_processor.py", R+"functions.py"],
 [("prefetch of inputs", R+"data_processor.py:_download_data_target"), ("removal of consumed inputs", R+"data_processor.py:_remove_target")],
 ["content of the input as seen by the user function; source tree after the run"])

prop("C19", "Merging datasets yields exactly their concatenation or a visible failure",
 "A merge of datasets that returns yields a dataset whose samples are the samples of the sources, in order, regardless of the order in which chunk copies finish; if any copy fails the merge raises and the destination shows no index. "
 "The sources are left unchanged.",
 ["schedules", "fault_sequences", "inputs"],
 "every order and timing of parallel copies, every failing copy, local and cloud sources and destinations, number and sizes of the sources",
 "Tests merge two tiny local datasets; parallel copying order and failures are not controlled.",
 [R+"functions.py", S+"fs_provider.py"],
 [("parallel copy and index", R+"functions.py:merge_datasets")],
 ["dataset at the destination; sources afterwards"])

prop("C20", "A cache filled by concurrent writers reads back as everything written",
 "When several ranks and loader workers fill one cache at the same time, every one of them ends its writing phase, and afterwards each reader sees every written sample exactly once at its own index; no reader ever sees a partly merged or partly written state as complete.",
 ["schedules", "crash_points", "configurations"],
 "every interleaving of writers, the merging rank and the waiting ranks; chunk size/bytes settings, compression, worker and rank counts",
 "Tests use one process or lucky timing; the hand-over from per-writer to merged index is a race by design.",
 [S+"writer.py", S+"cache.py", S+"dataloader.py", S+"sampler.py", S+"reader.py"],
 [("per-rank indexes and merge", S+"writer.py:BinaryWriter.done/merge"), ("distributed writing order", S+"sampler.py:CacheBatchSampler"), ("cache loader", S+"dataloader.py:CacheDataLoader")],
 ["second epoch of CacheDataLoader / Cache reads on every rank"])

prop("C21", "Token blocks stay valid and complete however chunks come and go",
 "A token dataset delivers every full block of every chunk exactly once per epoch with exactly the tokens written, and a block already handed to the user or waiting in a batch never changes afterwards, even when its chunk is closed, evicted or downloaded again.",
 ["schedules", "histories", "configurations"],
 "every interleaving of reading, batching, worker hand-over, chunk closing and eviction; block sizes not dividing chunks; all cache limits",
 "Tests read complete local data; memory-mapped blocks outliving their chunk fail only when eviction or closing happens between delivery and use.",
 [S+"item_loader.py", S+"reader.py", S+"writer.py"],
 [("memory mapping life cycle", S+"item_loader.py:TokensLoader"), ("eviction", S+"reader.py")],
 ["token blocks, read at delivery and again later"])

prop("C22", "Parquet datasets are indexed and streamed completely and in a fixed order",
 "Indexing a folder of parquet files, local or remote, lists every matching file exactly once with its true row count in an order that does not depend on listing order or on how long each file takes, and streaming over that index delivers every row exactly once with its values.",
 ["schedules", "fault_sequences", "configurations"],
 "every completion order of parallel footer reads, every listing order, local and remote sources, failing reads",
 "Tests index a few local files; the order in which parallel workers finish decides the index and is not controlled.",
 [U+"parquet.py", S+"item_loader.py", S+"writer.py", U+"hf_dataset.py"],
 [("ordered parallel indexing", U+"parquet.py"), ("row access", S+"item_loader.py:ParquetLoader")],
 ["index.json and rows delivered"])

prop("C23", "Broadcasting gives every node the value of the first one, or an error",
 "When nodes agree on a value through the shared service, every call returns the value contributed by the first node, for every arrival order, delay and transient service failure within the retry budget; a service that stays unavailable results in an error, never in a node continuing with its own value.",
 ["schedules", "fault_sequences"],
 "every arrival order of nodes, lost or delayed answers, repeated broadcasts with the same or different keys",
 "Tests use one process against one local server with no failures.",
 [U+"broadcast.py"],
 [("immutable shared map", U+"broadcast.py:broadcast_object/_ImmutableDistributedMap"), ("HTTP retries", U+"broadcast.py:_HTTPAdapter/_CustomRetryAdapter")],
 ["values returned by broadcast_object on every node"])

prop("C24", "Cloud credentials are renewed before they expire, for every clock history",
 "A storage client obtained while streaming is never older than the configured renewal interval at the moment it is handed out, and it is reused rather than recreated within the interval, for every spacing of accesses over time and in every process, also after the process was forked or the dataset pickled.",
 ["schedules", "histories", "fault_sequences"],
 "every spacing of accesses in time including long pauses, several processes and threads, clock advances at any point",
 "Tests sleep for one fixed interval; expiry depends on the clock history.",
 [S+"client.py", S+"downloader.py", S+"fs_provider.py"],
 [("age check", S+"client.py:S3Client.client")],
 ["age of the client handed out at every access"])

prop("C25", "A loader yields exactly as many full batches as its length announces",
 "The length reported by a streaming loader equals the number of batches it yields in that epoch whenever the items divide into the workers' batches, and every batch but a worker's last one has the configured size, for every schedule, topology, epoch and after interrupted epochs.",
 ["configurations", "schedules", "histories"],
 "every topology, batch size, drop_last and shuffle setting, after complete and abandoned epochs, every schedule of workers",
 "Tests compare lengths for a few hand-picked configurations.",
 [S+"dataloader.py", S+"dataset.py", S+"shuffle.py", U+"shuffle.py"],
 [("length computation", S+"shuffle.py:Shuffle.get_len"), ("loader length", S+"dataloader.py:StreamingDataLoader.__len__")],
 ["len(loader) against the batches yielded"])

prop("C26", "Walking a folder tree lists every folder exactly once, or fails",
 "The concurrent folder walk yields every folder of the tree exactly once, with exactly the files and the folders that are in it, for every number of threads, tree, order and delay of the listings and several walks at once; a listing that fails makes the walk fail, it doesn't leave a part of the tree out, and the walk always ends.",
 ["schedules", "fault_sequences", "configurations"],
 "every tree, number of threads, completion order of the listings and failing listing",
 "The test walks one small tree on a local disk where listings complete in the order they were asked for.",
 [R+"functions.py"],
 [("pending listings", R+"functions.py:walk.__iter__")],
 ["(folder, folders, files) triples yielded"])

# Pure functions: no schedule, clock, fault or interleaving.
prop("C30", "Splitting a dataset partitions its samples",
 "Splitting a streaming dataset gives parts that are disjoint, follow the requested proportions and together contain no sample twice.",
 ["inputs"], "every split specification and chunk layout", "A pure function of the index; tests sample a few layouts.",
 [U+"train_test_split.py", U+"subsample.py"], [("split", U+"train_test_split.py:train_test_split")])
prop("C31", "Serialization round-trips every supported value",
 "Every value of a supported type is returned equal after being serialized and deserialized.",
 ["inputs"], "every value of every supported type", "A pure function of its input; tests sample a few values.",
 [S+"serializers.py"], [("serializers", S+"serializers.py")])
prop("C32", "Encrypted data can be read only with its key and reads back unchanged",
 "Data encrypted at chunk or sample level decrypts to the original with the right key and fails with any other.",
 ["inputs"], "every payload and key", "A pure function of payload and key.",
 [U+"encryption.py"], [("encryption", U+"encryption.py")])
prop("C33", "Inputs are packed over workers completely and in balance",
 "Distributing weighted inputs over workers assigns each exactly once and balances the weights greedily.",
 ["inputs"], "every list of weights and number of workers", "A pure function of the weights.",
 [U+"packing.py"], [("greedy packing", U+"packing.py:_pack_greedily")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))

NA = {}
EXP = "executable contracts on the real functions, run natively on drawn inputs (bounded)"
EXPNOTE = ("The functions work on numpy buffers, outside the verifier's fragment: "
           "the contract is evaluated natively against the real code on inputs "
           "drawn from VERIF_SEED. Bounded, never counted as proved.")
THREADNOTE = ("Interleaving opens its datasets on threads, whose schedules are outside "
              "the verifier's fragment: that part is evaluated natively.")
prop("C14", "Packing keeps every record whole and labelled",
     "First-fit and best-fit packing put every record into exactly one bin, whole "
     "and contiguous, in the bin their strategy names. Bins never exceed the "
     "capacity of any feature, the alignment or the limit of records per bin. "
     "Segment ids and positions describe the content exactly and everything else "
     "is padding. Emission order is determined by the seed.",
     ["inputs", "configurations"],
     "all streams of records of any lengths, including zero, all capacities, "
     "alignments, paddings, limits and seeds",
     "Tests pack a few hand-made streams; combinations of limits, alignment, "
     "several features and empty records are not reached.",
     [T + "packing.py", T + "packing_packed_batch.py"],
     [("bins", T + "packing_packed_batch.py:PackedBatch"),
      ("first fit", T + "packing_packed_batch.py:FirstFitPackedBatch"),
      ("best fit", T + "packing_packed_batch.py:BestFitPackedBatch"),
      ("packing iterator", T + "packing.py:PackingDatasetIterator")],
     level="exploration", technique=EXP, note=EXPNOTE)
prop("C15", "Concat-then-split conserves tokens",
     "Concatenating records and splitting them at the target length neither "
     "loses, repeats nor reorders a token of any feature. Segment ids and "
     "positions describe every emitted element exactly, one segment never mixes "
     "records, and only the last packed element may be filled partly in every "
     "feature. Start-of-sequence handling replaces the first token of each "
     "non-empty segment and nothing else.",
     ["inputs", "configurations"],
     "all streams of records of any lengths and all settings",
     "Tests use a few length patterns with one or two features.",
     [T + "packing_concat_then_split.py"],
     [("split", T + "packing_concat_then_split.py:_CtsElement.split"),
      ("packing", T + "packing_concat_then_split.py:_ConcatThenSplitDatasetIterator")],
     level="exploration", technique=EXP, note=EXPNOTE)
prop("C16", "Iterator operations denote their streams",
     "Mapping, filtering, batching, rebatching, limiting, repeating, expanding, "
     "zipping, caching, mixing and concatenating an iterator yields exactly the "
     "stream which the operation's definition gives, in order, and then the end of "
     "the stream, which persists.",
     ["inputs", "histories"],
     "all streams of any length and all parameters of each operation",
     "Tests compare short lists for a few parameters.",
     [T + "map.py", T + "filter.py", T + "batch.py", T + "rebatch.py", T + "limit.py",
      T + "repeat.py", T + "flatmap.py", T + "zip.py", T + "cache.py", T + "mix.py"],
     [("filter", T + "filter.py:_FilterDatasetIterator"),
      ("batch", T + "batch.py:_BatchDatasetIterator"),
      ("rebatch", T + "rebatch.py:_RebatchDatasetIterator"),
      ("one-to-many", T + "flatmap.py:_FlatMapDatasetIterator")])
prop("C12", "Interleaving gives every element once, in the documented order",
     "Interleaving datasets yields every element of every dataset exactly once, "
     "each dataset's elements in their own order, with at most the cycle length "
     "open at a time taking turns and an exhausted one replaced in its place by "
     "the next. Neither threads, buffer sizes nor asking for states in between "
     "change the stream.",
     ["inputs", "configurations", "histories"],
     "all numbers and lengths of datasets, cycle lengths, thread and buffer "
     "settings",
     "Tests interleave a few short lists with few settings.",
     [T + "interleave.py"],
     [("interleave", T + "interleave.py:InterleaveDatasetIterator")],
     level="exploration", technique=EXP, note=THREADNOTE)
prop("C20", "Elastic resharding neither loses nor repeats elements",
     "When a job is saved and restored with another number of shards, however "
     "often, the shards together go on exactly where the saved ones stopped: "
     "every element of whole global batches, or of every dataset of an "
     "interleave, is read once, and the shards agree on the saved state.",
     ["histories", "crash_points", "configurations"],
     "all data sizes, sequences of shard counts, batch sizes and points at which "
     "the job is saved",
     "Tests reshard once or twice at a few points.",
     ["grain/_src/python/dataset/elastic_iterator.py", T + "interleave.py"],
     [("random access", "grain/_src/python/dataset/elastic_iterator.py:ElasticIterator"),
      ("iterators", "grain/_src/python/dataset/elastic_iterator.py:ElasticIterDatasetIterator")],
     level="exploration", technique=PY + "; the interleaving half by executable contracts run natively (bounded)",
     note=THREADNOTE)
prop("C17", "Samplers give every shard exactly its records",
     "Over each epoch, the sampler indices which belong to a shard read every "
     "record of that shard exactly once and no record of another shard, shuffled "
     "or in order. The number of indices matches the records. Record keys and "
     "generators are functions of the seed and the index, and different indices "
     "have different generators.",
     ["inputs", "configurations"],
     "all record counts, shard counts, numbers of epochs, seeds and indices",
     "Tests compare a few short samplers with expected lists.",
     ["grain/_src/python/samplers.py", "grain/_src/core/sharding.py"],
     [("sequential sampler", "grain/_src/python/samplers.py:SequentialSampler"),
      ("index sampler", "grain/_src/python/samplers.py:IndexSampler")])
prop("C13", "Prefetching changes nothing but the speed",
     "Reading a random-access dataset with threads and a buffer yields its present "
     "elements in order, for any number of threads, buffer size or change of them "
     "while iterating. The state after each element is its position. A state saved "
     "at any point, also after a failed read, restored into an iterator with other "
     "settings and any history, continues with the same elements; reading an "
     "iterator ahead on a thread or in another process also yields its stream and "
     "its states.",
     ["inputs", "schedules", "histories", "configurations"],
     "all datasets, numbers of threads, buffer sizes, points of saving and "
     "histories",
     "Tests use a few sizes and settings; what is in the buffer when a state is "
     "restored, a setting changes or a read fails is rarely varied.",
     [T + "prefetch.py", T + "process_prefetch.py"],
     [("worker process", T + "process_prefetch.py:ProcessPrefetchDatasetIterator"),
      ("thread pool", T + "prefetch.py:PrefetchDatasetIterator"),
      ("background thread", T + "prefetch.py:ThreadPrefetchDatasetIterator")])
prop("C18", "Data loaders give a shard its records and resume exactly",
     "A data loader gives the records of its shard which its sampler names, in "
     "the sampler's order, through its operations, each once per epoch, then the "
     "end. A state of the loader's iterator saved at any point and restored into "
     "any other of its iterators, whatever that one did before, continues with "
     "exactly the elements the first one would have given; a state of another "
     "loader is refused.",
     ["inputs", "histories", "crash_points", "configurations"],
     "all sources, shards, samplers, operations and points at which a state is "
     "saved",
     "Tests run a few loaders over short ranges and save at few points.",
     ["grain/_src/python/data_loader.py"],
     [("loader", "grain/_src/python/data_loader.py:DataLoader"),
      ("iterator", "grain/_src/python/data_loader.py:DataLoaderIterator")])
prop("C19", "Workers share the data without loss or repetition",
     "When a pipeline is read by several workers, each works on its own part of "
     "every source it reads: the parts are disjoint, together they are the whole, "
     "and the elements of all workers taken in turn are exactly those of the "
     "pipeline, interleaved or in consecutive parts.",
     ["inputs", "configurations"],
     "all lengths of the sources, numbers of workers and worker indices",
     "Tests slice a few pipelines for one or two workers.",
     [T + "source.py", T + "process_prefetch.py", T + "prefetch.py",
      T + "interleave.py"],
     [("slices of sources", T + "source.py:SourceMapDataset"),
      ("slices of pipelines", T + "prefetch.py:_set_slice_iter_dataset"),
      ("worker datasets", T + "process_prefetch.py:_LazyWorkerSliceIterDataset"),
      ("workers' elements in turn", T + "interleave.py:InterleaveDatasetIterator")])

prop("C11", "Batches and arrays sent to other processes hold exactly their elements",
     "A batch of structured elements holds, leaf by leaf, every element in order, in "
     "the type which holds all of them, whether it is made serially, in parallel or "
     "in shared memory; elements of different shapes are refused. Padding a batch "
     "adds padding only. A structure of arrays handed to another process through "
     "shared memory or pickled arrives as it was sent, also when an array is a view "
     "of a shared one.",
     ["inputs"],
     "all structures, types, shapes, views and batch sizes",
     "Tests batch a few types and send whole arrays.",
     [T + "batch.py", "grain/_src/python/ipc/shared_memory_array.py"],
     [("batching", T + "batch.py:make_batch"),
      ("parallel batching", T + "batch.py:_MakeBatchParallel"),
      ("padding", T + "batch.py:batch_and_pad"),
      ("shared memory", "grain/_src/python/ipc/shared_memory_array.py:copy_to_shm")],
     level="exploration", technique=EXP, note=EXPNOTE)

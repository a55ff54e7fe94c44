"""Regenerates properties.jsonl (edit here, not there)."""
import json, os
W = "src/megatron/energon/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[W + f for f in files],
                     mechanism=[dict(name=n, where=W + w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

p("P01", "Every sample is assigned to exactly one worker, evenly",
  "For every set of shards, number of data-parallel ranks and number of workers per rank, the slices handed to all workers of all ranks cover every sample of the split exactly once, in dataset order, without overlap. The number of samples of any two workers differs by at most one. With a limit on sequential samples per slice, slices are cut without losing or duplicating samples, no slice is longer than 1.5 times the limit, and the extra samples of several blended training datasets are rotated so that the total number of samples of any two workers still differs by at most one.",
  ["inputs", "configurations"], "all shard counts (incl. empty and one-sample shards), world sizes, worker counts, rotation offsets, slice limits",
  "Tests shard one or two fixed datasets over a few fixed worker layouts; remainders, empty shards and slice limits interact for every count.",
  ["flavors/webdataset/sharder.py", "flavors/webdataset/base_webdataset.py", "metadataset/loader_interface.py"],
  [("worker split offsets and shard slicing", "flavors/webdataset/sharder.py:Sharder.shard_workers"), ("slice limit", "flavors/webdataset/sharder.py:Sharder._split_shard")],
  ["per-worker slices", "samples yielded per worker"])

p("P02", "Same global batches when ranks and workers are traded against each other",
  "With the total number of workers over all ranks held constant and the same seed, trading ranks against workers per rank leaves the samples and the order seen by each global worker unchanged, so the training run sees the same global batches. This holds for shuffled training data, shuffle buffers and blends.",
  ["configurations", "inputs"], "all factorisations of the number of global workers, all datasets, shuffle and blend settings",
  "One test compares two layouts of one dataset with one seed.",
  ["flavors/webdataset/sharder.py", "worker.py", "rng.py", "task_encoder/base.py"],
  [("global worker split", "flavors/webdataset/sharder.py:Sharder.shard_workers"), ("global worker seeds", "worker.py:WorkerConfig.worker_seed")],
  ["sample stream per global worker"])

p("P03", "Each training epoch yields each sample exactly once",
  "Reading a dataset without repetition, or with shuffling within one epoch, yields each non-excluded sample of the worker's split exactly once per epoch; shuffling over n epochs yields each sample exactly n times per n epochs, and shuffling over infinite epochs yields only existing samples. Reading several slices in parallel interleaves slices but keeps the order within each slice, and unshuffled sequential reading keeps the dataset order.",
  ["inputs", "configurations"], "all shard layouts, numbers of parallel slices, shuffle modes, slice limits, seeds",
  "The tests iterate fixed datasets for a few epochs with few settings.",
  ["flavors/webdataset/sample_loader.py", "flavors/webdataset/single_shard_reader.py"],
  [("slice scheduler", "flavors/webdataset/sample_loader.py:WebdatasetSampleLoaderDataset._shards_iter")],
  ["sample keys of each epoch"])

p("P04", "A pipeline restored from a checkpoint continues exactly",
  "For every composition of dataset wrappers and every set of per-worker positions, saving all worker states, merging them and restoring them into a freshly built identical pipeline makes every worker continue with exactly the samples an uninterrupted run would have produced, neither losing nor repeating any, across epoch boundaries and across repeated save/restore cycles. Saving is free of side effects, a saved state can be restored any number of times, also after being pickled, and restoring the initial state restarts the pipeline from the beginning.",
  ["crash_points", "histories", "configurations"], "all wrapper compositions, save points of each worker (including workers that never started), restore chains",
  "Tests save at one or two fixed positions of a few hand-written pipelines; each wrapper keeps its own buffer, offset and generator state, and errors depend on the save point and the composition.",
  ["wrappers/base.py", "wrappers/buffer.py", "wrappers/map_dataset.py", "wrappers/batch_dataset.py", "wrappers/group_batch_dataset.py", "wrappers/packing_dataset.py", "wrappers/shuffle_buffer_dataset.py", "wrappers/repeat_dataset.py", "wrappers/epochize_dataset.py", "wrappers/limit_dataset.py", "wrappers/concat_dataset.py", "wrappers/blend_dataset.py", "rng.py"],
  [("state save/merge/restore of each wrapper", "wrappers/base.py:BaseSingleWrapperDataset")],
  ["samples produced after restoring"])

p("P05", "A data loader checkpoint resumes with exactly the next batch",
  "For every number of worker processes, every prefetch setting and every number of consumed batches, the state saved by the savable data loader, restored into a newly created loader, makes it continue with exactly the batch that would have come next in the uninterrupted run, independent of what the workers had prefetched. The states of all ranks can be gathered into one global state and each rank resumes from its own part.",
  ["crash_points", "schedules", "configurations"], "all consumed counts, worker counts (0, 1, many), prefetch factors, checkpoint intervals, save/restore chains",
  "Tests save at a few fixed positions; the checkpoint that matches depends on how far each worker process ran ahead, i.e. on the schedule.",
  ["savable_loader.py", "loader.py", "worker.py"],
  [("checkpoint ring of each worker", "savable_loader.py:SavableDatasetWrapper"), ("state saving", "savable_loader.py:SavableDataLoader.save_state_rank"), ("worker id rotation", "worker.py:WorkerConfig.rank_worker_id")],
  ["batches produced after restoring"])

p("P06", "Any yielded sample can be restored from its restore key",
  "For every pipeline of stateless steps, the restore key of every yielded sample or batch, given to the same or a freshly built identical pipeline or loader, reproduces that sample or batch exactly, including its key, its metadata and its random augmentations. Restoring does not disturb the ongoing iteration. Pipelines and loaders state that they can restore samples exactly if all their steps are stateless, and refuse to restore otherwise.",
  ["inputs", "histories", "configurations"], "all pipelines of stateless wrappers, all yielded samples, all workers",
  "Tests restore a handful of samples of a few pipelines.",
  ["wrappers/base.py", "wrappers/map_dataset.py", "wrappers/batch_dataset.py", "wrappers/packing_dataset.py", "wrappers/group_batch_dataset.py", "wrappers/iter_map_dataset.py", "flavors/webdataset/sample_loader.py", "savable_loader.py", "task_encoder/base.py"],
  [("restore keys", "flavors/base_dataset.py:add_sample_restore_key"), ("sample restoring", "savable_loader.py:SavableDataLoader.restore_sample")],
  ["restored sample vs yielded sample"])

p("P07", "Runs are reproducible from the seed",
  "Building the same pipeline twice with the same worker configuration and seed yields identical sample streams, independent of the global random state of the process and of other pipelines iterated in between. A different seed offset or a different global worker yields an independent shuffle of the same samples.",
  ["inputs", "schedules", "configurations"], "all pipelines, seeds, global random states and interleavings of several iterations",
  "A test compares a few runs of one dataset; leakage of global random state depends on what else runs.",
  ["rng.py", "worker.py", "wrappers/shuffle_buffer_dataset.py", "wrappers/blend_dataset.py", "flavors/webdataset/sample_loader.py"],
  [("worker-local generator", "rng.py:WorkerRng"), ("seed derivation", "worker.py:WorkerConfig.worker_seed")],
  ["two sample streams compared"])

p("P08", "Batching conserves samples and order",
  "Batching groups the consecutive samples of each worker into batches of exactly the configured size, in order, each sample in exactly one batch; only the last batch of an epoch may be smaller, and it is dropped exactly if requested. A batch that is skipped or fails removes exactly its own samples and leaves all other batches, and their restore keys, unaffected. The announced number of batches equals the number delivered when the input length is exact.",
  ["inputs", "configurations"], "all input lengths, batch sizes, worker counts, drop_last, patterns of skipped and failing batches, generator batchers",
  "Tests use fixed sizes and no failing batcher.",
  ["wrappers/batch_dataset.py", "task_encoder/base.py"],
  [("batch accumulation", "wrappers/batch_dataset.py:BatchDataset.__iter__"), ("length", "wrappers/batch_dataset.py:BatchDataset.__len__")],
  ["batches"])

p("P09", "Grouped batching never mixes groups or loses samples",
  "Grouped batching puts every sample into exactly one batch of its own group key; each batch has the size configured for its group except for remainders at the end of an epoch, which are yielded or dropped as requested. Batches are emitted as soon as a group is full, and samples of one group keep their order; skipped or failing samples and batches affect only themselves.",
  ["inputs", "configurations"], "all sequences of group keys, per-group sizes, drop_last, failing positions",
  "The only test of grouping checks one fixed sequence.",
  ["wrappers/group_batch_dataset.py", "task_encoder/base.py"],
  [("buckets", "wrappers/group_batch_dataset.py:GroupBatchDataset.__iter__")], ["batches"])

p("P10", "Packing conserves the samples chosen by the packer",
  "With sequence packing, each buffer of up to the configured number of consecutive samples is handed to the pre-packer exactly once, every pack the pre-packer selects is handed to the final packer exactly once, in the selected order and composition, and the remaining partial buffer is packed at the end. Skipped or failing buffers or packs remove only their own samples.",
  ["inputs", "configurations"], "all input lengths, buffer sizes, pack selections, failure positions",
  "Tests pack one dataset with one packer.",
  ["wrappers/packing_dataset.py", "task_encoder/base.py"],
  [("packing loop", "wrappers/packing_dataset.py:PackingDataset.__iter__")], ["packs", "calls of the packers"])

p("P11", "Blending follows the weights and preserves each dataset's stream",
  "A blend draws each next sample from one of its datasets with probability proportional to the dataset's weight, never from a zero-weighted or empty one, and the samples it draws from each dataset are exactly that dataset's own stream in order, restarted when exhausted. Blends may be nested, and a mixing batch is composed of exactly the samples such a blend draws.",
  ["inputs", "configurations"], "all weights, dataset sizes (including empty for a worker), seeds",
  "Tests check frequencies of one fixed blend.",
  ["wrappers/blend_dataset.py", "wrappers/mix_batch_dataset.py", "task_encoder/base.py", "metadataset/loader.py"],
  [("blend", "wrappers/blend_dataset.py:BlendDataset.__iter__")], ["drawn samples", "draw frequencies"])

p("P12", "Length-shaping wrappers yield exactly the promised number of samples",
  "Limiting, repeating, epochizing and concatenating yield, summed over all workers of a rank, exactly the promised number of samples: min(limit, available), repeats times the data, the epoch length, or the sum of the parts, in order. Epochizing continues the underlying stream in the next epoch without losing or repeating samples, a limited or finitely repeated dataset starts over in the next epoch, and concatenation keeps the order of its parts.",
  ["inputs", "configurations", "histories"], "all lengths, limits, repeats, worker counts and numbers of epochs",
  "Tests use a few fixed lengths.",
  ["wrappers/limit_dataset.py", "wrappers/repeat_dataset.py", "wrappers/epochize_dataset.py", "wrappers/concat_dataset.py"],
  [("limits", "wrappers/limit_dataset.py:LimitDataset.__iter__"), ("epochs", "wrappers/epochize_dataset.py:EpochizeDataset.__iter__")], ["samples per epoch"])

p("P13", "Mapping and filtering treat every sample exactly once, in order",
  "Mapping applies the function to each sample exactly once, in order, and yields its result, or all elements of a generated result; a filter keeps exactly the accepted samples; an iterator map sees the whole stream. Functions can ask for the index of the current sample and batch, and see consecutive indices that are unique over all workers of the rank.",
  ["inputs", "programs"], "all inputs, functions that skip, generate any number of samples or fail, nestings",
  "Tests use one or two simple functions.",
  ["wrappers/map_dataset.py", "wrappers/iter_map_dataset.py", "wrappers/filter_dataset.py", "task_encoder/base.py", "worker.py"],
  [("map", "wrappers/map_dataset.py:MapDataset.__iter__"), ("sample index", "wrappers/base.py:SampleIndex")], ["outputs", "current_sample_index"])

p("P14", "The shuffle buffer emits a permutation with bounded look-ahead",
  "A shuffle buffer of size n yields every input sample exactly once per epoch; a sample is never yielded before it was read and the buffer never holds more than n samples, so a sample leaves at most n-1 positions early. Different workers and seeds shuffle differently, and every buffered sample can be drawn.",
  ["inputs", "configurations"], "all input lengths, buffer sizes, seeds, worker counts",
  "Tests look at one shuffled order.",
  ["wrappers/shuffle_buffer_dataset.py", "wrappers/buffer.py", "rng.py"],
  [("buffer", "wrappers/shuffle_buffer_dataset.py:ShuffleBufferDataset.__iter__")], ["output order"])

p("P15", "Reading a shard returns exactly what was written",
  "For every webdataset tar with an index, reading any slice of it returns exactly the samples of that slice in order: their keys, all selected parts byte for byte under their extensions, and nothing from neighbouring samples. Part filters hide exactly the unselected parts, excluded samples and shards are left out without affecting others, and reading can stop and continue at any sample.",
  ["inputs", "crash_points"], "all tars (multi-part, long names, empty parts, directories, odd extensions, many samples), slices, filters, exclusions, interruption points",
  "Tests read a few regular tars front to back.",
  ["flavors/webdataset/itar.py", "flavors/webdataset/single_shard_reader.py", "flavors/webdataset/sample_loader.py", "flavors/webdataset/base_webdataset.py"],
  [("tar index", "flavors/webdataset/itar.py:TarIndexReader"), ("reader", "flavors/webdataset/single_shard_reader.py:SingleShardReader")], ["sample dictionaries"])

p("P16", "Preparing a dataset indexes and splits it completely",
  "Preparing a folder of tar files records for every shard the exact number of samples and their byte positions, leaves out shards that cannot be read, and assigns every shard to exactly one split according to the split ratios, or to the splits whose patterns it matches. The dataset loaded afterwards has exactly the recorded lengths.",
  ["inputs", "configurations"], "all shard sets, split ratios and patterns, shuffle seeds, worker counts",
  "Tests prepare one or two fixed folders with simple ratios.",
  ["flavors/webdataset/prepare.py", "flavors/webdataset/itar.py", "flavors/webdataset/metadata.py"],
  [("preparation", "flavors/webdataset/prepare.py:WebdatasetPreparator.prepare_dataset")], [".nv-meta files", "index files"])

p("P17", "Transient read errors never corrupt or lose data",
  "Reading through the retrying stream returns exactly the bytes of the underlying file for every sequence of reads, seeks, short reads and transient errors, as long as fewer consecutive attempts fail than allowed; with more failures, the error is reported and never turned into missing or wrong bytes.",
  ["fault_sequences", "inputs"], "all operation sequences and fault positions and kinds",
  "No test injects read faults into the stream.",
  ["retry_stream.py"], [("retry", "retry_stream.py:RetryReadStream")], ["bytes read, position, raised error"])

p("P18", "A bad sample affects only itself, and fatal errors are never swallowed",
  "An exception in user code for one sample, batch or pack is reported to the error handler once, with that sample, and removes only it: all other samples are delivered as if the bad one had been skipped. Explicit skips are silent. System errors and errors declared fatal stop the iteration instead of being skipped, and a handler that raises stops it as well.",
  ["fault_sequences", "inputs"], "all positions and stages of failures, kinds of exception, handler policies, subsequent epochs",
  "Tests inject an error in one or two fixed stages.",
  ["errors.py", "wrappers/map_dataset.py", "wrappers/batch_dataset.py", "wrappers/group_batch_dataset.py", "wrappers/packing_dataset.py", "wrappers/iter_map_dataset.py", "flavors/webdataset/error_handler.py", "flavors/webdataset/sample_loader.py"],
  [("per-sample handlers", "wrappers/map_dataset.py:MapDataset.__iter__"), ("fatal errors", "errors.py:FatalSampleError")], ["delivered samples", "handler calls", "raised error"])

p("P19", "Joined datasets pair samples by key only",
  "A joined dataset yields, for each sample of the primary dataset, the samples of all joined datasets with the same key, and never pairs samples with different keys: mismatching keys, lengths or shard layouts are an error, not a silent mispairing. Sharding, shuffling, slicing and restoring keep the pairs together.",
  ["inputs", "configurations"], "all joined datasets, shard layouts, worker layouts, mismatches",
  "Tests join a few aligned fixed datasets.",
  ["flavors/webdataset/joined_webdataset.py", "flavors/webdataset/sample_loader.py", "flavors/webdataset/single_shard_reader.py", "metadataset/join_dataset_loader.py"],
  [("joined reading", "flavors/webdataset/sample_loader.py:WebdatasetSampleLoaderDataset._read_multicolumn_shard")], ["joined samples"])

p("P20", "Metadataset files resolve to the described blend",
  "A metadataset file, of any supported version and nesting, resolves to exactly the datasets it lists, in order, with the product of normalised weights along the nesting path, the split asked for or overridden, and the shuffle multipliers multiplied. Subflavors given at outer levels are added to and take precedence over inner ones, and relative paths are resolved against the file containing them.",
  ["inputs", "configurations"], "all nested metadataset trees, weights, splits, subflavors, path forms",
  "Tests load a few fixed files.",
  ["metadataset/metadataset.py", "metadataset/metadataset_v2.py", "metadataset/dataset_loader.py", "metadataset/loader.py"],
  [("v2 resolution", "metadataset/metadataset_v2.py:MetadatasetV2.get_datasets"), ("v1 resolution", "metadataset/metadataset.py:Metadataset.get_datasets")], ["list of datasets, weights, splits, subflavors"])

p("P21", "Field maps select exactly the described raw fields",
  "A field map fills every sample field from exactly the raw part it describes: the first present alternative, nested accesses into json by key or index, and literal values; the resulting typed sample has the raw sample's key, restore key and subflavors. Missing alternatives are an error and never a wrong part.",
  ["inputs", "configurations"], "all field maps, access expressions and raw samples",
  "Tests use one or two fixed field maps.",
  ["flavors/webdataset/field_access.py", "flavors/webdataset/default_generic_webdataset.py", "flavors/webdataset/default_decoder_webdataset.py"],
  [("field access", "flavors/webdataset/field_access.py"), ("sample loading", "flavors/webdataset/default_generic_webdataset.py")], ["typed samples"])

p("P22", "Cookers are chosen by subflavor and see every crude sample once",
  "Each crude sample is processed by exactly the first matching cooker: one whose subflavor conditions all hold for the sample's subflavors. A sample without any matching cooker is an error rather than a silently passed-through or dropped sample, and cooked samples keep the metadata of the crude one.",
  ["inputs", "configurations"], "all cooker lists, condition sets and subflavors",
  "Tests use one dataset with two cookers.",
  ["task_encoder/cooking.py", "task_encoder/base.py", "flavors/crude.py"],
  [("cooker selection", "task_encoder/cooking.py:Cooker.is_match")], ["cooked samples"])

p("P23", "Path algebra normalises consistently and round-trips",
  "Paths behave as values: joining, parent, name, suffix, relative resolution of '.' and '..', and string conversion agree with ordinary path rules for local and remote paths, never escape above the root, and converting a path to text and back or pickling it yields an equal path with equal hash.",
  ["inputs"], "all path strings and operation sequences",
  "Tests check a few fixed paths.",
  ["epathlib/epath.py"], [("normalisation", "epathlib/epath.py:EPath")], ["path strings"])

p("P24", "Typed configuration conversion round-trips and rejects wrong input",
  "Converting plain data to a typed configuration object yields an object of exactly the declared types with all given values, and converting it back yields equal plain data; values of the wrong type, missing fields and, in strict mode, unknown fields are rejected with an error naming the position. Objects and functions named in a configuration are called with exactly the given, converted arguments.",
  ["inputs", "programs"], "all type shapes (nested dataclasses, unions, optionals, literals, containers) and values",
  "No stable test covers the converter beyond the shapes of the shipped configuration files.",
  ["typed_converter.py", "dataset_config.py"], [("conversion", "typed_converter.py:raw_to_typed"), ("calls", "typed_converter.py:safe_call_function")], ["objects, plain data, errors"])

p("P25", "Merged transforms equal applying them one after the other",
  "For every sequence of supported geometric transforms, the merged transform produces the same output size and the same pixel mapping as applying the transforms one after the other with the same random choices, up to interpolation error.",
  ["inputs", "programs"], "all sequences of transforms, parameters, image sizes, random draws",
  "The stable tests check each transform alone and a few fixed sequences.",
  ["transforms/merge.py", "transforms/mappers.py"], [("matrix composition", "transforms/merge.py:MergeTransform")], ["image size, pixel positions"])

p("P26", "Generic batching pads without changing data",
  "Default batching stacks tensors of different sizes into one tensor of the maximal size, each sample's content unchanged at the origin and zeros elsewhere, keeps dtypes, and collects other values in order, recursively through dictionaries, dataclasses and named tuples. Concatenating batches behaves likewise along the batch dimension.",
  ["inputs"], "all nested structures, tensor shapes and dtypes",
  "Tests batch a few fixed structures.",
  ["task_encoder/base.py", "wrappers/mix_batch_dataset.py"], [("batching", "task_encoder/base.py:generic_batch"), ("concat", "wrappers/mix_batch_dataset.py:generic_concat")], ["batched structure"])

p("P27", "Stateless functions see reproducible randomness and leave none behind",
  "A user function declared stateless with seed restoring sees global random generators seeded only by the seed, the worker, and the sample index, and leaves the global random state of the process exactly as it was before, also on exceptions and between the items of generators. Saving and restoring the global random state reproduces all following draws.",
  ["inputs", "programs", "schedules"], "all functions, draw patterns, interleavings with other draws, exceptions",
  "Tests check one augmented dataset.",
  ["task_encoder/base.py", "rng.py", "savable_loader.py"], [("seed wrapper", "task_encoder/base.py:stateless"), ("global rng", "rng.py:SystemRng")], ["draws inside and outside the function"])

p("P28", "Debug logs record exactly the delivered samples",
  "With debug logging enabled, each worker writes one well-formed record per delivered batch with consecutive step numbers and the keys of the samples in it, to its own file; logging never changes which samples are delivered, and the step numbers continue after resuming from a checkpoint.",
  ["histories", "configurations"], "all pipelines, log levels, worker counts, save points",
  "No stable test reads the logs.",
  ["wrappers/log_sample_dataset.py", "worker.py", "savable_loader.py"], [("logging", "wrappers/log_sample_dataset.py:LogSampleDataset"), ("log file", "worker.py:WorkerConfig.worker_log")], ["log lines vs delivered samples"])

p("P29", "Training and validation loaders deliver the described data",
  "For every task encoder configuration (batch size, grouping, packing, shuffle buffer, virtual epoch length, limits, blends, splits), a training loader delivers an endless or virtual-epoch stream of encoded batches made only of that split's samples with the configured batch sizes, and a validation loader delivers every sample of the split exactly once per pass over all ranks, in batches.",
  ["configurations", "inputs"], "all combinations of loader options on generated datasets",
  "Tests combine few options on few datasets.",
  ["task_encoder/base.py", "task_encoder/loader.py", "loader.py"], [("pipeline assembly", "task_encoder/base.py:DefaultTaskEncoder"), ("loader functions", "task_encoder/loader.py")], ["batches"])

p("P30", "The data tools accept exactly the loadable data and show it as it is",
  "energon lint succeeds exactly if every sample of the requested splits of a dataset or metadataset can be loaded and the shards agree with the dataset's index and info; every sample which cannot be loaded is reported, also when several worker processes do the checking. energon info reports the true sample and shard counts, split ratios and sizes, and energon preview shows every sample of a split in order.",
  ["inputs", "configurations"], "all prepared datasets, splits, and damaged parts, shards, indices and infos",
  "No stable test runs the tools.",
  ["tools/lint.py", "tools/info.py", "tools/preview.py"], [("lint", "tools/lint.py:command"), ("info", "tools/info.py:command"), ("preview", "tools/preview.py:command")], ["exit code and output of the tools"])

p("P31", "analyze-debug shows exactly what the debug logs say",
  "For debug logs of any number of ranks, workers and loaders, energon analyze-debug finds exactly the distinct sample keys and the steps recorded for the chosen loader (or in the loading order of the files), and draws one point for each key delivered in each step, merging neighbours by powers of two until all of them fit into the requested size. Logs without data are an error.",
  ["histories", "inputs"], "all log files, heatmap sizes, skipped steps and real loader runs",
  "No stable test runs the tool.",
  ["tools/analyze_debug.py"], [("heatmap", "tools/analyze_debug.py:AutosizingHeatmapWriter"), ("log files", "tools/analyze_debug.py:LoaderLogIter")], ["numbers printed, heatmap pixels"])

p("P32", "Announced lengths equal what is delivered",
  "The length of a dataset is the number of samples (or, after batching, of batches) it delivers: summed over all ranks, the lengths of the per-rank datasets give the whole split; on each rank, the length of a finite pipeline of shuffling, mapping, batching with or without dropping the remainder, limits, repetitions, concatenation and virtual epochs equals what its workers deliver together in one pass, and so does the length of a loader, whatever was read from or restored into it before.",
  ["inputs", "configurations"], "all datasets, pipelines without user-decided counts, layouts of ranks and workers, loaders",
  "Tests compare the lengths of few fixed pipelines.",
  ["flavors/webdataset/sample_loader.py", "wrappers", "savable_loader.py", "metadataset/metadataset.py"],
  [("sample count", "flavors/webdataset/sample_loader.py:WebdatasetSampleLoaderDataset.__len__"), ("batches", "wrappers/batch_dataset.py:BatchDataset.__len__"), ("loader", "savable_loader.py:SavableDataLoader")], ["len() vs delivered"])

p("P33", "Configurations tell pipelines apart by their settings",
  "The configuration of a dataset or loader (config()) is JSON data determined by the settings alone: building the same pipeline again gives an equal configuration, and so do reading from it, saving and restoring. Two pipelines which deliver different samples because of different settings - the datasets, blend weights, split, subflavors, joined columns and joiner, excluded samples, maximal sequence lengths, parallel reading, shuffling, batch sizes, dropped remainders, packing buffers, limits, repetitions, virtual epochs, the identity of user functions, or the layout of ranks and workers - have different configurations. (The seed, the code inside user functions, and how the fields of a sample are read are not part of it.)",
  ["inputs", "configurations"], "all pairs of pipelines differing in one setting",
  "Tests compare the configuration of one pipeline with a constant.",
  ["wrappers", "flavors/webdataset", "savable_loader.py"],
  [("grouped batching", "wrappers/group_batch_dataset.py:GroupBatchDataset.config"), ("shards", "flavors/webdataset/sample_loader.py:WebdatasetSampleLoaderDataset.config"), ("loader", "savable_loader.py:SavableDataLoader.config")], ["config() vs delivered samples"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")

PROPS = []


def P(**kw):
    PROPS.append(kw)


P(
    id="C01",
    title="Epochs, sub-epochs, shards and repeats deliver every sequence exactly once",
    statement=(
        "For every dataset that orders its own corpus (static, HDF, map-style, LM text, text-dict, zip corpus) and every seq_ordering, the "
        "sub-epochs of one full epoch taken over all shards together deliver each corpus sequence exactly once (exactly repeat_epoch "
        "times; each distinct tag once with unique_seq_tags; exactly the listed tags with a seq-list filter), every part's size "
        "differs by at most one, and each delivered sequence carries its own tag, corpus index and content. "
        "An explicitly given order (by index or by tag) is followed exactly, num_seqs equals what is delivered, and the progress (get_complete_frac) grows monotonically within (0,1], up to 1 for the last sequence."
    ),
    over=["inputs", "configurations", "histories"],
    quant="all corpora (sizes, length distributions, duplicate tags), dataset classes, seq_ordering strings, partition_epoch, shard counts, repeat counts, filters, epochs, and orders in which the sub-epochs are asked for",
    why="tests sample a handful of (ordering, n, partition) points on one dataset class; remainders, more parts than sequences, empty bins, filters and shards interact",
    files=["returnn/datasets/basic.py", "returnn/datasets/cached.py", "returnn/datasets/cached2.py", "returnn/datasets/hdf.py", "returnn/datasets/lm.py", "returnn/datasets/text_dict.py", "returnn/datasets/audio.py", "returnn/datasets/map.py", "returnn/datasets/generating.py"],
    mech=[("Dataset.get_seq_order_for_epoch", "returnn/datasets/basic.py"), ("init_seq_order of each dataset", "returnn/datasets/*.py")],
    observe=["init_seq_order / is_less_than_num_seqs / load_seqs / get_tag / get_data of real datasets"],
    technique="runtime monitoring: exactly-once / conservation checker over delivered sequences of real datasets",
    note="held on the explored corpora and configurations; content identifies sequences, so losses, repeats and mixups are visible",
)
P(
    id="C02",
    title="Sequence order is a pure function of options and epoch, with documented shape",
    statement=(
        "For given dataset options, the sequence order of an epoch is the same from every instance, after every history of other calls, after "
        "pickling or copying and in every process; consecutive sub-epochs are consecutive pieces of the same full-epoch order. "
        "The order has the documented shape: default, reverse, sorted, sorted_reverse, laplace (bins alternately ascending and descending), "
        "sort_bin_shuffle (shuffled contiguous length bins), random shuffles that stay fixed for N epochs when asked, depend on the epoch and "
        "seed offset otherwise, and are constant under a fixed seed; a given seq-lens file replaces the corpus lengths."
    ),
    over=["inputs", "histories", "configurations"],
    quant="all corpora, orderings with their arguments, seeds, epochs, call histories and processes",
    why="tests compare few fixed orders; the quantifier is over histories of one object and over the joint space of ordering arguments, partitioning and seeds",
    files=["returnn/datasets/basic.py", "returnn/datasets/cached.py", "returnn/datasets/cached2.py"],
    mech=[("Dataset.get_seq_order_for_epoch", "returnn/datasets/basic.py"), ("Dataset.__reduce__", "returnn/datasets/basic.py")],
    observe=["order of delivered tags and contents per epoch"],
    technique="runtime monitoring: history-independence and order-shape oracle over recorded epoch orders",
    note="held on explored histories; the concrete permutation for a seed is not judged",
)
P(
    id="C03",
    title="Batch construction keeps every chunk and frame exactly once within its limits",
    statement=(
        "Dataset.generate_batches turns the sequences of an epoch into batches such that, for every chunking (size, step, per-key sizes, minimum "
        "chunk size, variance, custom function), context window and sequence length filter, exactly the specified chunks appear, each once, in order; "
        "no batch with more than one chunk exceeds batch_size, max_seqs or max_pad_size, and no batch is closed while the next chunk still fits. "
        "In frame mode (recurrent_net=False) every frame appears exactly once in batches filled up to batch_size. Peeking, advancing, "
        "has_more, resetting and completed_frac of the batch generator are consistent, and the arrays fed to the network (single threaded, via the "
        "provider thread, or a batch slice) hold exactly the chunk contents, zero padding, lengths and tags."
    ),
    over=["inputs", "configurations", "schedules"],
    quant="all sequence lengths per key, chunking and context options, limits as int or per key, reading protocols and queue capacities",
    why="tests use a few fixed length lists; boundary conditions (remaining frames equal to the minimum, padding limits, per-key limits, ratio of keys) are joint",
    files=["returnn/datasets/basic.py", "returnn/engine/batch.py", "returnn/tf/data_pipeline.py", "returnn/util/basic.py"],
    mech=[("Dataset.iterate_seqs / _generate_batches", "returnn/datasets/basic.py"), ("Batch, BatchSetGenerator", "returnn/engine/batch.py"), ("FeedDictDataProvider", "returnn/tf/data_pipeline.py")],
    observe=["generate_batches(...).peek_next_n/advance/has_more/completed_frac", "FeedDictDataProvider.get_next_batch and its queue"],
    technique="runtime monitoring: conservation and limit checker over the batch trace against an independent reference chunker",
    note="held on the explored length lists and options",
)
P(
    id="C04",
    title="The PyTorch data pipeline conserves sequences, limits, padding and metadata",
    statement=(
        "Through the PyTorch pipeline (dataset wrapper, length filter, chunking, batching by int/dict/callable limits, bucket batching, online batch "
        "shuffling, collate, data loader with and without worker processes, extern data conversion, batch splitting) every sequence or chunk which is "
        "not filtered arrives exactly once, in order where order is promised, unchanged, with its own tag, length per key, epoch, num_seqs and a "
        "monotonic complete_frac; multi-sequence batches respect batch_size/max_seqs and are closed only when needed; bucket batches respect their "
        "bucket limits; shuffling is a permutation bounded by the buffer and a function of its seed; padding is zero."
    ),
    over=["inputs", "configurations", "schedules"],
    quant="all sequence lengths, chunking/filter/batching/bucket options, callables, buffer sizes, epochs, worker counts",
    why="tests have few sequences and one option at a time; loss or duplication shows only for particular joint lengths and limits",
    files=["returnn/torch/data/pipeline.py", "returnn/torch/data/returnn_dataset_wrapper.py", "returnn/torch/data/extern_data.py"],
    mech=[("ChunkingIterDataPipe, BatchingIterDataPipe, BucketOrderingIterDataPipe, ShufflingDataPipe, LenFilterDataPipe, collate_batch", "returnn/torch/data/pipeline.py"), ("raw_dict_to_extern_data, raw_dict_split_batch", "returnn/torch/data/extern_data.py")],
    observe=["items and batches emitted by each pipe", "TensorDict raw tensors and dim sizes"],
    technique="runtime monitoring: exactly-once and limit checker following items by content through the real pipeline",
    note="held on the explored datasets and pipeline configurations",
)
P(
    id="C05",
    title="HDF data written is the data read, in any order and cache mode",
    statement=(
        "Sequences written with SimpleHDFWriter (any batching, several writers, extending an existing file, extra keys, strings, sparse, multi-axis "
        "data) or with HDFDatasetWriter.dump_from_dataset are read back by HDFDataset exactly: same values, dtype, dims, tags and lengths per key, one or "
        "several files, for every sequence order, random access, cache size (uncached, cached by bytes, everything, background preloading), epoch history. "
        "A writer that crashes or fails on a full disk never leaves under the target name a file which is then read as valid but with wrong content."
    ),
    over=["inputs", "histories", "crash points", "schedules"],
    quant="all sequence shapes, dtypes, batchings, orders, cache sizes, epoch histories, crash points of the writer",
    why="tests write a few sequences and read them once in order; cache eviction, preload threads, extension and crash points are joint",
    files=["returnn/datasets/hdf.py", "returnn/datasets/cached.py"],
    mech=[("SimpleHDFWriter, HDFDatasetWriter, HDFDataset", "returnn/datasets/hdf.py"), ("CachedDataset", "returnn/datasets/cached.py")],
    observe=["HDFDataset.load_seqs/get_data/get_data_by_seq_tag/...", "the file under the final name after the writer process is gone"],
    technique="runtime monitoring: write/read round-trip oracle, preload thread stress, crash injection at audit events and disk-full",
    note="held on explored data, orders, cache sizes and crash points",
)
P(
    id="C06",
    title="MultiProcDataset equals the wrapped dataset and never hides a worker failure",
    statement=(
        "A MultiProcDataset delivers, for every number of workers, buffer size and relative speed of the workers, exactly the sequences of the wrapped "
        "dataset with the same content, tags, indices, num_seqs, data keys and dims: in the same order with sharding_method seq_order, as an exactly-once "
        "union of the shards with sharding_method dedicated; for every history of complete and aborted epochs, predefined orders, repeated epochs, "
        "finish_epoch, and after pickling. A worker that raises or is killed leads to an error in the consumer, never to a silently shorter epoch or a hang."
    ),
    over=["schedules", "inputs", "faults", "histories"],
    quant="all wrapped datasets, worker counts, buffer sizes, delays, epoch histories, fault points",
    why="tests run one history with fast workers; the guarantee is over schedules and faults",
    files=["returnn/datasets/multi_proc.py", "returnn/util/multi_proc_non_daemonic_spawn.py"],
    mech=[("MultiProcDataset, worker loops", "returnn/datasets/multi_proc.py")],
    observe=["sequences delivered by the consumer side", "exceptions raised after injected worker faults"],
    technique="runtime monitoring: differential trace oracle (wrapped vs multi-process) with injected delays, kills and exceptions",
    note="held on explored schedules; delays are injected in the wrapped dataset",
)
P(
    id="C07",
    title="DistributeFilesDataset gives every file to exactly one sub-epoch and shard",
    statement=(
        "For every list (or nested tree) of files with any sizes, partition_epoch, shard count, seq_ordering of files (default or random) and preload depth, the "
        "sub-epochs of a full epoch over all shards deliver the sequences of every file exactly once, no sub-epoch or shard is without files when there are enough "
        "files, the files of a sub-epoch stay in the full-epoch order, and the assignment depends only on options and epoch: not on the history of requests "
        "(skipped, repeated, aborted sub-epochs), on pickling or on the process. An error in the sub-epoch worker reaches the consumer."
    ),
    over=["inputs", "configurations", "histories", "faults"],
    quant="all file counts and sizes, partitionings, shards, orderings, preload depths, epoch histories, worker faults",
    why="tests use a few equal files and a sequential history; skew in sizes, shards with partitioning and restarts interact",
    files=["returnn/datasets/distrib_files.py"],
    mech=[("DistributeFilesDataset._distribute_evenly_by_size, init_seq_order, worker", "returnn/datasets/distrib_files.py")],
    observe=["sequences per sub-epoch and shard; every sequence names its file"],
    technique="runtime monitoring: exactly-once checker over files per sub-epoch/shard, with restarts, delays and injected worker faults",
    note="held on explored file layouts and histories",
)
P(
    id="C12",
    title="A resumed training is identical to an uninterrupted one (PyTorch engine)",
    statement=(
        "With the PyTorch engine, stopping a training at the end of any epoch, or losing the process in the middle of any training step, and starting the same config "
        "again, gives the same result as training without interruption: the same batches in every step, the same learning rates and train/dev/eval scores, the same "
        "global step, and bit-identical parameters, buffers and optimizer state (CPU, in-process data loading, random numbers drawn from the Torch/RF generators; with "
        "data loader worker processes for models which draw no random numbers). This holds for every optimizer, learning rate control, dynamic learning rate, gradient "
        "accumulation, clipping, noise, batching, shuffling, default_float_dtype, save_interval and cleanup_old_models setting. Restarting a finished training changes nothing."
    ),
    over=["interruption points", "configurations", "histories"],
    quant="all models, configs, data, and points of interruption (one or several)",
    why="tests resume one simple config at one epoch boundary and compare little of the state",
    files=["returnn/torch/engine.py", "returnn/torch/updater.py", "returnn/engine/base.py", "returnn/learning_rate_control.py"],
    mech=[("Engine.train, train_epoch, _load_model, _save_model", "returnn/torch/engine.py"), ("Updater", "returnn/torch/updater.py"), ("LearningRateControl", "returnn/learning_rate_control.py")],
    observe=["batches and parameter hashes at every train step", "final parameters, optimizer state", "score file"],
    technique="runtime monitoring: differential oracle of step traces and final states between interrupted and straight runs in child processes",
    note="held on explored models, configs and interruption points; CPU only",
)
P(
    id="C13",
    title="No crash or full disk corrupts checkpoints or scores; training recovers",
    statement=(
        "Whenever the training process (PyTorch engine) dies - at any file system operation, SIGKILLed while a file is being written, or because writing fails (disk full, "
        "quota, I/O error) - every checkpoint and optimizer file under its final name and the score file are complete and hold exactly what the uninterrupted training wrote "
        "for that epoch; scores of all epochs up to the last checkpoint are in the score file; a write error ends the training with an error; and starting the training "
        "again, also after repeated crashes, reaches the identical final state and scores."
    ),
    over=["crash points", "faults", "histories"],
    quant="all crash points, write faults, repeated crashes, configs",
    why="tests never crash the process; the guarantee is over every point in the save/evaluate/cleanup sequence",
    files=["returnn/torch/engine.py", "returnn/torch/updater.py", "returnn/engine/base.py", "returnn/learning_rate_control.py"],
    mech=[("_save_model, eval_model, _check_missing_eval", "returnn/torch/engine.py"), ("save_optimizer", "returnn/torch/updater.py"), ("get_existing_models, cleanup_old_models", "returnn/engine/base.py"), ("save/load", "returnn/learning_rate_control.py")],
    observe=["files under their final names after each crash", "state after the resumed training"],
    technique="runtime monitoring: fault injection (exit at the n-th audited file system event, SIGKILL, ENOSPC/EIO, RLIMIT_FSIZE) with file and recovery oracles",
    note="held on explored crash points; process crash, not power loss",
)
P(
    id="C14",
    title="Model cleanup keeps what its options promise and deletes nothing else",
    statement=(
        "cleanup_old_models keeps, for every set of existing checkpoints and every score history, the last keep_last_n checkpoints, the epochs in `keep`, and for every "
        "score (train/dev/eval, each loss) that is not constant the best keep_best_n ones; it removes only model checkpoints together with their optimizer state (with an explicit `keep` exactly those "
        "which no option covers), never other files, and nothing in a dry run."
    ),
    over=["inputs", "configurations"],
    quant="all checkpoint sets, score histories (ties, missing, infinite), options",
    why="deleting the wrong model is irrecoverable; tests check a single history",
    files=["returnn/engine/base.py", "returnn/torch/engine.py"],
    mech=[("EngineBase.cleanup_old_models, get_existing_models", "returnn/engine/base.py"), ("Engine.delete_model", "returnn/torch/engine.py")],
    observe=["directory content before and after"],
    technique="runtime monitoring: directory-state oracle over random checkpoint/score histories",
    note="held on explored histories; PyTorch checkpoints",
)
P(
    id="C15",
    title="Learning rate control follows its documented rule, independent of restarts",
    statement=(
        "For constant, newbob (relative), newbob_abs and newbob_multi_epoch control, every score history and every option (fixed rates, decay/growth factor or function, thresholds, minimum rate, "
        "minimum number of epochs per rate, relative to learning rate, division by old error, error measure keys), the learning rate of each epoch is the documented function of the "
        "earlier rates and scores; saving to and loading from the learning rate file at any point changes neither scores nor later rates; get_last_best_epoch gives the best earlier epoch among those its options (range, last epochs, filter score, last n, minimum distance) leave."
    ),
    over=["histories", "configurations"],
    quant="all score histories, options, restart points",
    why="tests check single transitions of single options",
    files=["returnn/learning_rate_control.py"],
    mech=[("LearningRateControl and subclasses", "returnn/learning_rate_control.py")],
    observe=["learning rates and scores per epoch"],
    technique="runtime monitoring: online comparison with an independent schedule model, with reloads from file at random points",
    note="held on explored histories",
)
P(
    id="C16",
    title="The PyTorch Updater applies exactly the configured update to every parameter",
    statement=(
        "For every module tree (nested, shared parameters, RF or PyTorch modules, frozen parameters) and optimizer config, each parameter is in exactly one optimizer group with "
        "the weight decay its module type, bias rule, blacklist or include check demands; each step applies exactly that optimizer with the current learning rate (per-epoch rate, "
        "dynamic function, multiplier) to the gradients after noise, value clipping and global norm clipping; gradient noise is truncated normal of the given scale; and the optimizer state survives saving and loading by "
        "parameter name, also into a module with reordered, additional frozen or removed parameters."
    ),
    over=["inputs", "configurations", "histories"],
    quant="all module trees, optimizers, options, gradients, reload points",
    why="tests check group membership for two models; wrong groups or lost state only degrade training silently",
    files=["returnn/torch/updater.py"],
    mech=[("Updater", "returnn/torch/updater.py")],
    observe=["parameters after each step, optimizer groups and state"],
    technique="runtime monitoring: differential oracle against plain torch.optim driven by the same random gradients",
    note="held on explored modules and options; numerical tolerance 1e-4",
)
P(
    id="C26",
    title="RF loops (scan, while_loop, cond, TensorArray, nested) match per-sequence loops",
    statement=(
        "rf.scan over a given dim runs the body once per frame and gives for every sequence of a padded batch the outputs, the final state (frozen after the "
        "last valid frame of the sequence) and the gradients which the plain loop over the sequence alone gives; with cond it gives the lengths and outputs of "
        "`while cond: body` (or body-first) per entry, an entry never continuing after its cond was False once, bounded by max_seq_len. rf.while_loop "
        "and rf.cond behave as the Python statements, also with growing dims and TensorArrays in the state. A TensorArray is functional: push_back gives a new array "
        "and never changes an existing one. rf.nested mask/gather/masked_select/masked_scatter treat every entry of a nested state (tensors, dims with a "
        "length per entry) like indexing entry by entry."
    ),
    over=["inputs", "histories"],
    quant="all bodies, state structures, sequence lengths, stopping schedules, masks, beam back-references",
    why="tests run one body on one batch; errors show for particular length patterns, state structures, masks",
    files=["returnn/frontend/loop.py", "returnn/frontend/tensor_array.py", "returnn/frontend/nested.py", "returnn/frontend/cond.py", "returnn/torch/frontend/_backend.py"],
    mech=[("while_loop, scan", "returnn/frontend/loop.py"), ("TensorArray", "returnn/frontend/tensor_array.py"), ("mask_nested, gather_nested, masked_select_nested, masked_scatter_nested", "returnn/frontend/nested.py")],
    observe=["raw tensors and dim sizes of the results", "calls of body and cond", "gradients"],
    technique="runtime monitoring: per-sequence reference oracle over random loops, states and length patterns (eager PyTorch)",
    note="final state of scan with cond is not claimed",
)
P(
    id="C34",
    title="Distributed training keeps all ranks one model, in step, without deadlock",
    statement=(
        "With torch_distributed and any number of ranks with different data: all ranks start with the same parameters; with reduce_type grad every update "
        "(after gradient accumulation, with clipping) uses on every rank the average over the ranks of the accumulated gradients, so the parameters of all ranks stay equal; with reduce_type "
        "param every rank updates on its own data and after every param_sync_step steps all ranks hold the average (also with sync_on_cpu). All ranks end an epoch "
        "together as soon as one has no more data, do the same number of steps, and use the same learning rate and scores; only rank 0 evaluates and "
        "writes files; a restart continues all ranks from rank 0's checkpoint; the ranks never deadlock."
    ),
    over=["schedules", "inputs", "configurations"],
    quant="all rank counts, data amounts per rank, sync intervals, accumulation and clipping options, optimizers, learning rate controls, dev set sizes, restarts",
    why="the test suite runs one tiny multi-process training without looking at the parameters; uneven data, accumulation and sync intervals interact",
    files=["returnn/torch/distributed.py", "returnn/torch/engine.py", "returnn/torch/updater.py", "returnn/learning_rate_control.py"],
    mech=[("DistributedContext, _sync_params_avg", "returnn/torch/distributed.py"), ("Engine.train_epoch, eval_model", "returnn/torch/engine.py")],
    observe=["batches and parameters at every train_step of every rank", "epoch_data of learning rate control on every rank", "files written per rank"],
    technique="runtime monitoring: recorded per-rank traces of real multi-process training checked against a simulated synchronous training; deadlock monitor",
    note="gloo on CPU (hook lifts the CUDA-only assertion); DDP itself is PyTorch's",
)
P(
    id="C36",
    title="Parameters are loaded from where the config says, none silently left random",
    statement=(
        "For every set of existing checkpoints and optimizer files and every combination of load, load_epoch, import_model_train_epoch1 and preload_from_files "
        "(prefix, ignore_params, ignore_params_prefixes, var_name_mapping, checkpoint_key, init_for_train, ignore_missing, pattern), the PyTorch engine loads every parameter "
        "and buffer from the documented source (training resumes from the last epoch which has model and optimizer; first sorted preload entry wins, over the main checkpoint; "
        "init_for_train 'always' parameters are neither trained nor stored), with the right epoch and step, and refuses to start if a parameter which has to be loaded has no source. "
        "Checkpoint averaging (torch_avg_checkpoints) gives the mean of every parameter, also for parameters stored as shared, and leaves its inputs unchanged."
    ),
    over=["inputs", "configurations", "histories"],
    quant="all module trees, checkpoint sets, preload entries and their options, tasks",
    why="tests use one or two preload entries; a parameter from the wrong file or left random does not fail anything",
    files=["returnn/torch/engine.py", "returnn/engine/base.py", "returnn/torch/util/module.py", "tools/torch_avg_checkpoints.py", "returnn/util/basic.py"],
    mech=[("Engine._load_model", "returnn/torch/engine.py"), ("EngineBase.get_epoch_model, get_existing_models", "returnn/engine/base.py"), ("merge_checkpoints", "tools/torch_avg_checkpoints.py")],
    observe=["parameters and buffers of the engine's model after init", "epoch, global step", "the averaged file"],
    technique="runtime monitoring: provenance oracle (every source tensor has unique values) over random checkpoint sets and configs",
    note="held on explored configs; see assumptions for excluded option combinations",
)
P(
    id="C10",
    title="Vocabularies map text to labels and back exactly as files and options say",
    statement=(
        "For all label inventories, file formats (pickle, dict text, lines, gzip), label lists, special symbols (direct options win over special_symbols_via_file) and sentences: Vocabulary, CharacterTargets, Utf8ByteTargets, "
        "BytePairEncoding, SamplingBytePairEncoding and SentencePieces give exactly the ids of the labels; unknown words give the unknown label, or an error if there is none; get_seq_labels inverts get_seq; seq_postfix is added once. "
        "BPE gives the segmentation by merge rank (codes v0.1 and v0.2), out-of-vocab segments split by undoing merges. Sampling BPE always gives a segmentation which spells the word, the unknown label only if none exists, "
        "longest-first for breadth_prob 0, shortest-first for 1, same seed same result; CharSyncSearch gives every segmentation exactly once."
    ),
    over=["inputs", "configurations"],
    quant="all vocabularies, merge tables, options and texts",
    why="tests use a handful of fixed words and two vocab files",
    files=["returnn/datasets/util/vocabulary.py", "returnn/util/bpe.py"],
    mech=[("Vocabulary", "returnn/datasets/util/vocabulary.py"), ("StandardBytePairEncoder", "returnn/util/bpe.py"), ("DepthFirstSearch", "returnn/util/bpe.py")],
    observe=["label ids and labels of every encoded sentence"],
    technique="runtime monitoring: online oracle (independent naive encoder / all segmentations) on every encoded sentence",
    note="held on explored vocabularies and sentences",
)
P(
    id="C25",
    title="Text corpus datasets deliver exactly the lines of the files as labels",
    statement=(
        "For all text corpora (line files with or without final newline and empty lines, gzip, Bliss XML, several files), symbol tables or vocabularies, and options: LmDataset delivers every line exactly once per full epoch, under its tag, with exactly the symbols of the line "
        "(character- or word-based, special symbols, replacements, word/sequence end, unknown replacement, delayed data), skipping exactly the invalid sequences if configured so; TranslationDataset, TranslationFactorsDataset and ConfusionNetworkDataset deliver source and "
        "target line i together as sequence line-i with the postfixes and unknown labels, follow seq_list_file, seq_order and seq_list, and report dims and tags right, however the background reader is scheduled. The data of a sequence does not depend on what was read before."
    ),
    over=["inputs", "configurations", "schedules"],
    quant="all corpora, options, orders and reader schedules",
    why="tests use one small file with one option set each and never a slow reader",
    files=["returnn/datasets/lm.py", "returnn/datasets/cached2.py", "returnn/util/basic.py"],
    mech=[("LmDataset", "returnn/datasets/lm.py"), ("TranslationDataset reader thread", "returnn/datasets/lm.py")],
    observe=["tag and labels of every delivered sequence"],
    technique="runtime monitoring: content and exactly-once oracle on every delivered sequence, with delays injected into the reader",
    note="held on explored corpora and schedules",
)
P(
    id="C30",
    title="literal_eval reads Python literals exactly, memory-safe, never half a file",
    statement=(
        "For every text that ast.literal_eval accepts, returnn.util.literal_py_to_pickle.literal_eval (str or UTF-8 bytes; the reader of dataset meta files) gives the same value with the same types or "
        "raises; for nested lists, dicts and sets of strings (with the escapes of repr), ints of any size, floats in any decimal notation and None it never raises, whatever the size, white space and "
        "order; a literal which was cut off is refused; no text whatsoever makes the native parser crash, read or write outside of its buffers or have undefined behaviour."
    ),
    over=["inputs"],
    quant="all texts (valid, cut off, corrupted)",
    why="the unit test has 20 short literals; meta files have millions of entries and the parser is hand-written C++",
    files=["returnn/util/py-to-pickle.cpp", "returnn/util/literal_py_to_pickle.py"],
    mech=[("Parser", "returnn/util/py-to-pickle.cpp"), ("py_to_pickle", "returnn/util/literal_py_to_pickle.py")],
    observe=["returned values, exceptions, sanitizer reports, process exit"],
    technique="runtime monitoring: grammar-based and mutated texts through the real parser, differential oracle ast.literal_eval, ASan+UBSan build of the parser in children",
    note="held on the generated texts",
)
P(
    id="C31",
    title="A config option has the written value in every format, accessor and process",
    statement=(
        "For every set of options, Config gives back the written value and type with every accessor (int, float, bool, list, pairs, index, default) whether it was set in a Python, JSON (with comments) or "
        "line-based config file or on the command line; with several files, extra updates and command line options the last one wins, also for functions of the config that refer to the option; and a pickled "
        "Config, in the same or in a spawned process, behaves like the original one: functions with any parameters and defaults, closures with shared state, lambdas, classes and instances, arrays, dims, "
        "shared and cyclic references."
    ),
    over=["inputs", "histories"],
    quant="all option sets, formats, override orders, Python constructs of the listed kinds",
    why="tests read a handful of options; the config is user code that is shipped to every worker process",
    files=["returnn/config.py", "returnn/__main__.py", "returnn/util/task_system.py", "returnn/util/basic.py", "returnn/util/multi_proc_non_daemonic_spawn.py"],
    mech=[("Config", "returnn/config.py"), ("init_config", "returnn/__main__.py"), ("Pickler", "returnn/util/task_system.py"), ("SubProcCopyGlobalConfigPreInitFunc", "returnn/config.py")],
    observe=["values returned by the accessors; results of probe expressions in the config namespace of both processes"],
    technique="runtime monitoring: generated configs through the real readers, pickler and spawned processes; oracle: the written values and plain execution of the same source",
    note="held on the generated configs",
)
P(
    id="C33",
    title="Sprint archives are read and written exactly",
    statement=(
        "For every well-formed Sprint/RASR archive (with or without file table, plain or compressed entries, names in the given encoding) and bundle of archives (relative or absolute paths): the list of entries is exactly that of the archives, and reading any entry, in any order and any number of times, "
        "gives exactly the stored features and time stamps, strings, and alignments (run-length and both weighted formats; as allophone and state or raw); a short segment name gives its entry or is refused when ambiguous, never another entry. Archives written by FileArchive (add_feature_cache, finalize) "
        "are well-formed, complete once finalize returned, and contain exactly the given features. SprintCacheDataset delivers in every full epoch each sequence exactly once, in the configured order, with exactly its features and the labels given by the state tying or the phoneme of its alignment. "
        "Mixture sets and word boundaries are read exactly."
    ),
    over=["inputs", "histories", "configurations"],
    quant="all archives, bundles, reading orders, labelings and seq orderings",
    why="there is no test with the formats beyond trivial ones; run lengths, compression, multi-archive bundles and label sizes are joint",
    files=["returnn/sprint/cache.py", "returnn/datasets/sprint.py"],
    mech=[("FileArchive._raw_read", "returnn/sprint/cache.py"), ("FileArchiveBundle", "returnn/sprint/cache.py"), ("SprintCacheDataset", "returnn/datasets/sprint.py")],
    observe=["entry lists, entries read, bytes written, delivered sequences"],
    technique="runtime monitoring: online oracle (own writer and parser of the format) on every entry read or written",
    note="held on explored archives",
)
P(
    id="C28",
    title="TF rec layer sub-networks give the step-by-step result, optimised or not",
    statement=(
        "For every recurrent sub-network of a TF RecLayer (any graph of linear, activation, combine, eval, copy, slice, layer_norm, softmax, switch, cumsum, LSTM cells, attention over an outer sequence, outer values, the step index, and prev: references with any initial output) looped over an input or "
        "over target labels (teacher forcing with a choice layer), for every batch with any lengths and any values in the padding: the output of every layer in every step of every sequence equals the step-by-step evaluation of the definition for that sequence alone, the lengths are those of the looped axis, "
        "and this is the same whether layers are moved out of the loop (optimize_move_layers_out) or not, including the gradients. Graphs whose shapes cannot be inferred may be refused with an exception."
    ),
    over=["inputs", "configurations"],
    quant="all sub-network graphs, lengths, paddings and parameters",
    why="moving layers out of the loop is decided by a dependency analysis over the whole graph; tests check some tens of fixed graphs, mostly for equal lengths",
    files=["returnn/tf/layers/rec.py", "returnn/tf/layers/basic.py", "returnn/tf/layers/base.py", "returnn/tf/network.py"],
    mech=[("_SubnetworkRecCell._move_outside_loop", "returnn/tf/layers/rec.py"), ("_SubnetworkRecCell.get_output", "returnn/tf/layers/rec.py"), ("ChoiceLayer", "returnn/tf/layers/rec.py")],
    observe=["values and lengths of the layer outputs, gradients"],
    technique="runtime monitoring: online oracle (numpy step-by-step interpreter of the sub-network) on random graphs, differential run with and without the optimisation",
    note="held on explored graphs and inputs; CPU, float32 tolerance",
)
P(
    id="C35",
    title="TF beam search returns the true beam with its scores, per sequence",
    statement=(
        "For every decoder given as TF RecLayer sub-network with a choice layer (feedback of the chosen label, recurrent state, attention over an encoder with weight feedback, extra layers which depend on the label history), every beam size (1, larger than the vocabulary, ...), "
        "prob_scale, base_beam_score_scale, input_type, length_normalization, max_seq_len and include_eos, and every batch with any lengths and any values in the padding: search yields for each sequence alone exactly the hypotheses of a beam search over that model, best first, with their labels, lengths and scores "
        "(with length_normalization up to one factor common to the batch), the decide layer yields the best one, the sub-layer outputs of every hypothesis are those along its own history (states follow the selected beams), and moving layers out of the loop changes nothing. Hypotheses may also be empty."
    ),
    over=["inputs", "configurations"],
    quant="all decoder models, beam sizes, search options, lengths and paddings",
    why="the states of every layer have to be re-selected for the surviving beams in each step and, for layers moved out of the loop, along the backtraced history; tests check few fixed models and mostly only shapes",
    files=["returnn/tf/layers/rec.py", "returnn/tf/layers/base.py", "returnn/tf/util/basic.py", "returnn/tf/util/data.py", "returnn/tf/network.py"],
    mech=[("ChoiceLayer", "returnn/tf/layers/rec.py"), ("DecideLayer", "returnn/tf/layers/rec.py"), ("SearchChoices", "returnn/tf/layers/base.py"), ("_SubnetworkRecCell", "returnn/tf/layers/rec.py")],
    observe=["hypotheses, scores, lengths, outputs of the sub-layers"],
    technique="runtime monitoring: online oracle (numpy beam search per sequence) on random decoders and search options",
    note="held on explored models and inputs; searches with close competing scores are skipped; CPU, float32 tolerance",
)
P(
    id="C37",
    title="TF layers and losses compute their definition per sequence, whatever the padding",
    statement=(
        "For every network dictionary built from the TF layers (elementwise, linear, softmax and normalisation layers; convolution, pooling, window, reduce, cumsum, softmax over time; shift, slice, slice_nd, pad, prefix/postfix, repeat, resize, remove, masked computation, concat, split, merge and split of dims, flatten/unflatten, gather, scatter, switch, compare, length, range, "
        "positional encoding, self attention, dot, edit distance, sparse cross entropy, recurrent and sub-networks) and every batch with any lengths, in batch- or time-major layout: each layer output has for each sequence the value, the length and the sparse/dense kind which the documented definition gives on that sequence alone, regardless of what is in the padding frames. "
        "The losses (ce with label smoothing, focal factor, logits or dense targets; mse, l1, mean_l1, bin_ce, ctc, as_is; flattened or masked frames) are the sum over the true frames, with their normalisation factor, error, scale, per-sequence value and gradient accordingly."
    ),
    over=["inputs", "configurations"],
    quant="all graphs of layers, options, lengths, paddings and layouts",
    why="every layer masks, infers lengths and tracks axes on its own; tests check single layers on mostly one shape, without looking at what padding does downstream",
    files=["returnn/tf/layers/basic.py", "returnn/tf/layers/base.py", "returnn/tf/layers/rec.py", "returnn/tf/network.py", "returnn/tf/util/data.py", "returnn/tf/util/basic.py"],
    mech=[("LayerBase", "returnn/tf/layers/base.py"), ("Loss", "returnn/tf/layers/base.py"), ("TFNetwork.construct_from_dict", "returnn/tf/network.py"), ("Data", "returnn/tf/util/data.py")],
    observe=["layer outputs, lengths and dtypes; loss values, normalisation factors, errors, gradients"],
    technique="runtime monitoring: online oracle (numpy reference per unpadded sequence) on random graphs of layers with poisoned padding",
    note="held on explored graphs and inputs; CPU, float32 tolerance; layers documented as not masking get masked input",
)
P(
    id="C40",
    title="Gradient checkpointing and gradient control give the specified gradient",
    statement=(
        "For every program which runs any of its blocks inside gradient_checkpoint_scope (one after another, nested, left by an exception, in several threads; with random ops, autocast, multi-output ops, views, in-place ops within the scope or on its results afterwards; several backward passes; other users of saved_tensors_hooks before, between and after), "
        "outputs, all gradients and the random generator state are as without any scope, and tensors created in a scope are not kept for the backward pass; other code afterwards is not influenced. "
        "rf.scaled_gradient, scaled_gradient_ext, stop_gradient, stop_gradient_scope, gradient and set_requires_gradient give the forward value unchanged and the gradient by their definition, also with a Tensor as scale or shift; with rf.weight_noise, weight_dropout or register_parametrization, "
        "outputs in training use the transformed weight and the gradient is that of the original parameter under the same draw, and evaluation and the parameter itself are unchanged."
    ),
    over=["inputs", "histories", "schedules"],
    quant="all programs, scopes, seeds, orders of deletion, threads",
    why="the recomputation depends on tensor lifetimes, on the order of hooks and on the RNG state over a whole program; the tests run a few fixed programs",
    files=["returnn/torch/util/gradient_checkpoint.py", "returnn/torch/util/scaled_gradient.py", "returnn/frontend/gradient.py", "returnn/frontend/parametrizations.py", "returnn/frontend/parametrize.py", "returnn/torch/frontend/_backend.py"],
    mech=[("gradient_checkpoint_scope", "returnn/torch/util/gradient_checkpoint.py"), ("scaled_gradient", "returnn/torch/util/scaled_gradient.py"), ("register_parametrization", "returnn/frontend/parametrize.py")],
    observe=["outputs, gradients, RNG state, release of tensor storages, pack/unpack calls of other saved_tensors_hooks"],
    technique="runtime monitoring: differential oracle (the same program without scope) and definition oracle over random programs, exceptions and threads; storage lifetime monitor",
    note="held on explored programs; CPU; a tensor of one scope used while another scope is innermost may be stored (PyTorch applies only the innermost hooks)",
)
P(
    id="C38",
    title="Native ops (edit distance, alignment, CTC, chunking, LSTM) are exact",
    statement=(
        "For every batch with any lengths (also empty sequences), labels, scores, padding content and automata: the native edit distance ops (full, optimal completion, per successor, row by row, reduced over next labels with blank and ended sequences) give the exact distances; fast_baum_welch and fast_viterbi give the sum, the soft alignment and the best path over exactly the paths of the automaton of each sequence; "
        "the CTC automata (native with or without label loop, and Python) have exactly one accepting path for every label string which collapses to the targets and none for any other; ctc_loss and ctc_loss_viterbi and their gradients follow; chunk and unchunk are the documented chunking and averaging, with their gradients; the native LSTM variants give the standard LSTM recurrence in each direction and step, carrying the state over padding, with exact gradients. "
        "No kernel reads or writes out of bounds or has undefined behaviour."
    ),
    over=["inputs", "configurations"],
    quant="all batches, lengths, labels, automata and layouts",
    why="hand-written kernels with manual index arithmetic; tests compare a few fixed shapes, and an out-of-bounds access can go unnoticed",
    files=["returnn/native_op.py", "returnn/native_op.cpp", "returnn/tf/native_op.py", "returnn/util/fsa.py"],
    mech=[("NativeOpGenBase subclasses", "returnn/native_op.py"), ("ctc_loss", "returnn/tf/native_op.py"), ("get_ctc_fsa_fast_bw", "returnn/util/fsa.py")],
    observe=["op results and gradients; AddressSanitizer and UndefinedBehaviorSanitizer reports of the compiled kernels"],
    technique="sanitizers (ASan, UBSan) on the kernels compiled from the current tree, plus online definition oracles",
    note="held on explored inputs; CPU kernels, float32 tolerance",
)
P(
    id="C39",
    title="The native code compile cache is safe for concurrent and crashing processes",
    statement=(
        "Any number of processes which ask NativeCodeCompiler for the same or different native code (sources, macros, included headers) at the same time all get a "
        "complete library that behaves as their own source says, whatever the compiler speed and whichever earlier process crashed at any point of its compilation; a "
        "changed source, macro value or header never yields the stale library."
    ),
    over=["schedules", "crash points", "inputs"],
    quant="all interleavings of concurrent users, crash points, changes of source and headers",
    why="tests compile in one process; the cache is shared by all processes of a cluster node",
    files=["returnn/util/native_code_compiler.py", "returnn/util/basic.py"],
    mech=[("NativeCodeCompiler", "returnn/util/native_code_compiler.py"), ("LockFile", "returnn/util/basic.py")],
    observe=["results of calls into the loaded libraries"],
    technique="runtime monitoring: concurrent processes with a slowed compiler shim, crash injection at audit events, oracle on the called library",
    note="held on explored interleavings and crash points",
)
P(
    id="C17",
    title="Losses, gradients and scores are those of the sequences, whatever the batching",
    statement=(
        "For the PyTorch engine and every data set, batching, set of marked losses (frame-wise, sequence-wise, packed or scalar; scale, custom normalisation factor, as error), "
        "gradient accumulation, gradient clipping and learning rate function, each update uses the gradient of the documented loss over exactly the sequences since the last update, padding never "
        "contributes, and the reported train and dev scores (and exp. scores, gradient norm) are the sums over all sequences divided by the sums of the normalisation factors; "
        "training stops with an error on a non-finite loss when configured so, after exactly the preceding updates."
    ),
    over=["inputs", "configurations"],
    quant="all data sets, batchings, loss sets, accumulation and clipping options",
    why="tests train once and look at a single score; wrong normalisation or double counting still trains",
    files=["returnn/torch/engine.py", "returnn/frontend/run_ctx.py", "returnn/torch/updater.py"],
    mech=[("Engine.train_epoch, Engine.eval_model", "returnn/torch/engine.py"), ("Loss", "returnn/frontend/run_ctx.py")],
    observe=["parameters after each update, learning rate file scores"],
    technique="runtime monitoring: trace of every real train step compared with an independent per-sequence float64 model",
    note="held on explored configurations; numerical tolerance as listed in assumptions",
)
P(
    id="C18",
    title="Forwarding gives every sequence once to the callback, with its own outputs",
    statement=(
        "For every data set, ordering, batching, number of data loader workers and set of model outputs (any dimension order, batch dim anywhere, several or derived dynamic dims, sparse, static, scalar, "
        "raw tensors), Engine.forward_with_callback calls init once, process_seq exactly once per sequence with that sequence's tag and unpadded outputs equal to those of the "
        "sequence on its own, then finish once; also when a batch is split because of an out-of-memory error."
    ),
    over=["inputs", "configurations", "faults"],
    quant="all data sets, batchings, output layouts, out-of-memory points",
    why="tests forward a handful of sequences; a mixed-up or padded output silently corrupts recognition results",
    files=["returnn/torch/engine.py", "returnn/frontend/run_ctx.py", "returnn/forward_iface.py", "returnn/torch/data/tensor_utils.py"],
    mech=[("Engine.forward_with_callback", "returnn/torch/engine.py"), ("RunCtx.mark_as_output", "returnn/frontend/run_ctx.py")],
    observe=["event log of the callback"],
    technique="runtime monitoring: exactly-once and per-sequence-value oracle over the recorded callback log, with injected out-of-memory errors",
    note="held on explored workloads; OOM is simulated on CPU",
)
P(
    id="C24",
    title="Tensor operators follow named-dimension semantics, natively and in Python",
    statement=(
        "For all RF tensors with the PyTorch backend, whatever the order, number and identity of their dims (subset, superset, permuted, disjoint with allow_broadcast_all_sources, equal but distinct Dim objects, "
        "the same dim twice, size 1), the binary and unary operators, rf.combine, rf.compare, copy, copy_template, get_out_permutation_to_dims, copy_compatible_to_dims and _raw and the raw_tensor setter "
        "give the values, dims and dtype that matching axes by dim (never by position) demands, dim_order is respected, operands stay unchanged, and invalid requests raise an exception. This holds for the native C++ module and for the pure "
        "Python fallback; the native module never accesses memory invalidly, has no undefined behaviour and neither leaks nor over-releases references."
    ),
    over=["inputs", "configurations"],
    quant="all tensors, dim layouts, operators, error paths; both implementations",
    why="every model computation goes through these; tests use a few layouts, and refcount errors only crash much later",
    files=["returnn/frontend/_native/tensor_ops.cpp", "returnn/frontend/_native/module.cpp", "returnn/frontend/_native/backend.cpp", "returnn/frontend/math_.py", "returnn/frontend/_utils.py", "returnn/tensor/_tensor_extra.py"],
    mech=[("native tensor ops", "returnn/frontend/_native/tensor_ops.cpp"), ("bin_op_out_template", "returnn/frontend/_utils.py"), ("combine, compare", "returnn/frontend/math_.py")],
    observe=["result values, dims, dtype; reference counts; sanitizer reports"],
    technique="runtime monitoring: ASan/UBSan build of the native module, reference count monitor, online numpy oracle by axis name in native and pure-Python processes",
    note="held on explored operations apart from the listed known finding",
)
P(
    id="C11",
    title="The file cache returns complete, current copies and never drops files in use",
    statement=(
        "For every history of get_file, release_files, cleanup, source changes (newer mtime), process restarts, failed copies (no space, I/O error) and process deaths at any point (once the lock timeout has passed), and for any number of concurrent "
        "processes, FileCache.get_file returns a file in the cache directory whose content is exactly that of the source, or raises; after the error is gone the next call works; a file in use is kept "
        "alive and never removed by the cleanup of any process; cleanup removes oldest unused files first, only as far as the age and space options demand, and raises if it cannot free enough; sources are never changed."
    ),
    over=["histories", "schedules", "crash points", "faults"],
    quant="all operation histories, interleavings, crash points, disk sizes, error points",
    why="tests copy one file once; a torn or evicted training file shows up days later on some cluster node",
    files=["returnn/util/file_cache.py", "returnn/util/basic.py"],
    mech=[("FileCache", "returnn/util/file_cache.py"), ("LockFile", "returnn/util/basic.py")],
    observe=["content of the returned files, directory state, mtimes"],
    technique="runtime monitoring: content and retention oracle over random histories with injected errors, crash points at audit events, delays and concurrent processes",
    note="held on explored histories; time is simulated through mtimes, disk size through shutil.disk_usage",
)
P(
    id="C08",
    title="Combining datasets keep sequences aligned, complete and independent of history",
    statement=(
        "For all corpora, storage orders, tag maps, orderings, partitions and shards: MetaDataset gives for every data key exactly the data of the sequence with this tag (or its mapped tag) in the mapped sub-dataset, in "
        "the order of the control dataset or its own ordering, every sequence of the list exactly once per full epoch over all sub-epochs and shards, and follows given seq_list/seq_order exactly. CombinedDataset gives every sequence of every "
        "sub-dataset exactly once per full epoch (or the next sampling_sizes many, in order), only with the keys of its own dataset. ConcatDataset, MultiEpochDataset, VariableDataset, ClusteringDataset give exactly the sequences of the inner dataset(s) "
        "and epochs in order; ConcatSeqsDataset exactly the listed concatenations; ChunkShuffleDataset every chunk exactly once. What an epoch gives depends only on options and epoch, not on earlier init_seq_order calls "
        "(other epochs, the same epoch again, predefined orders) or partial reads."
    ),
    over=["inputs", "histories"],
    quant="all corpora, option combinations and call histories",
    why="tests read one epoch of one or two fixed combinations; Combined/Concat/ConcatSeqs/ChunkShuffle/Clustering have next to no tests",
    files=["returnn/datasets/meta.py", "returnn/datasets/cached2.py", "returnn/datasets/basic.py"],
    mech=[("MetaDataset", "returnn/datasets/meta.py"), ("CombinedDataset", "returnn/datasets/meta.py"), ("ConcatSeqsDataset", "returnn/datasets/meta.py")],
    observe=["tags and data of every delivered sequence"],
    technique="runtime monitoring: content/alignment/exactly-once oracle over recorded deliveries under random call histories",
    note="held on explored corpora and histories",
)
P(
    id="C19",
    title="RF functional ops ignore padding and act on named axes exactly",
    statement=(
        "For all RF tensors (eager PyTorch backend, behaviour version 24) with any mix of static and dynamic dims, any dim order, memory layout and sequence lengths, and arbitrary values in the padded frames: every op gives for each "
        "sequence, on its valid frames, exactly what the mathematical op gives on that sequence alone, with right sizes of created dims. Covered: rf.reduce_* (sum, max, min, mean, logsumexp, logmeanexp, any, all, argmin, argmax; one or more axes, with or without batch), "
        "softmax, log_softmax, cumsum, elementwise functions, where, clip_by_value, lerp, moments, normalize, cast, range_over_dim(_strided), linspace_over_dim, copy_masked, matmul, gather, scatter (all modes, fill values), slice, pad, concat, stack, split, expand_dim, merge_dims, split_dims, reshape, "
        "shift_left/right, reverse_sequence, window, squeeze, replace_dim, cum_concat_step, pack_padded/pad_packed, masked_select/masked_scatter, sort, top_k, search_sorted, top_k_mask, top_p_mask, one_hot, cross_entropy, ctc_loss, edit_distance, label_smoothing."
    ),
    over=["inputs", "configurations"],
    quant="all shapes, dim orders, lengths, padding contents, axes and options of the listed ops",
    why="tests use one batch layout and mostly compare shapes, or TF with torch; padding leaks and axis mix-ups change results silently",
    files=["returnn/frontend/array_.py", "returnn/frontend/reduce.py", "returnn/frontend/math_.py", "returnn/frontend/dims.py", "returnn/frontend/loss.py", "returnn/torch/frontend/_backend.py", "returnn/frontend/normalization.py", "returnn/frontend/matmul.py"],
    mech=[("TorchBackend", "returnn/torch/frontend/_backend.py"), ("array functions", "returnn/frontend/array_.py")],
    observe=["raw tensors, dims and dim sizes of every result"],
    technique="runtime monitoring: online per-sequence numpy oracle on every result of the real ops, padding filled with garbage",
    note="held on explored ops and layouts",
)
P(
    id="C20",
    title="RF layers and models: results do not depend on batch mates or padding",
    statement=(
        "For all sequences, batches and contents of the padded frames (eager PyTorch backend, behaviour version 24, eval mode): what a layer or model gives for a sequence in a padded batch equals what it gives for this sequence alone without padding, "
        "including output lengths; input gradients are equal and zero for padded frames; parameter gradients of the batch are the sum of those of the sequences. Covered: Conv1d/2d/3d (strides, dilation, groups, padding), max/avg pooling, stft, "
        "log-mel, Linear, Embedding, LayerNorm, RMSNorm, GroupNorm, BatchNorm (eval), Normalize, feed-forward blocks, self/causal/rotary/relative-position/cross attention, LSTM, ZoneoutLSTM, ConvSubsample, Conformer (V1, V2), E-Branchformer, Transformer encoder and decoder."
    ),
    over=["inputs", "configurations"],
    quant="all sequences, batch compositions, padding contents and layer options",
    why="tests use one batch layout without garbage in the padding; a leak changes results only for shorter sequences, silently",
    files=["returnn/frontend/conv.py", "returnn/frontend/attention.py", "returnn/frontend/rec.py", "returnn/frontend/normalization.py", "returnn/frontend/signal.py", "returnn/frontend/encoder/conformer.py", "returnn/frontend/encoder/e_branchformer.py", "returnn/frontend/encoder/transformer.py", "returnn/frontend/decoder/transformer.py", "returnn/torch/frontend/_backend.py"],
    mech=[("pool", "returnn/frontend/conv.py"), ("dot_attention", "returnn/frontend/attention.py"), ("TorchBackend.conv", "returnn/torch/frontend/_backend.py")],
    observe=["outputs, lengths and gradients of the batch run and of the runs per sequence"],
    technique="runtime monitoring: differential oracle (padded batch vs. each sequence alone) on outputs, lengths and gradients of the real layers",
    note="held on explored layers, options and batches",
)
P(
    id="C21",
    title="Stepwise execution with state equals the whole-sequence execution",
    statement=(
        "For all inputs, lengths and schedules (eager PyTorch backend, eval mode): single steps from default_initial_state, a whole-sequence call on a prefix (of different length per sequence) followed by single steps, steps where the state of finished "
        "sequences is kept (rf.nested.mask_nested), and steps with beams reordered by arbitrary back-references (rf.nested.gather_nested) give at every step the output the whole-sequence call gives for the same history, and the same final state. Covered: CausalSelfAttention, "
        "RotaryPosCausalSelfAttention, RelPosCausalSelfAttention, LSTM, ZoneoutLSTM, TransformerDecoder (with and without encoder)."
    ),
    over=["inputs", "histories"],
    quant="all inputs, lengths, prefix splits and beam reorderings",
    why="training uses the whole sequence, search single steps: a difference is invisible in training and only makes search worse; tests compare one fixed sequence",
    files=["returnn/frontend/attention.py", "returnn/frontend/rec.py", "returnn/frontend/decoder/transformer.py", "returnn/frontend/nested.py", "returnn/frontend/array_.py"],
    mech=[("_causal_self_att_step", "returnn/frontend/attention.py"), ("gather_nested", "returnn/frontend/nested.py")],
    observe=["outputs of every step, state tensors"],
    technique="runtime monitoring: trace oracle comparing every recorded step with the whole-sequence run on the history of the hypothesis",
    note="held on explored layers, schedules and inputs",
)
P(
    id="C23",
    title="RF layers compute their documented function",
    statement=(
        "For all inputs, parameters and options (eager PyTorch backend, behaviour version 24): Conv1d/2d, max/avg pooling, LSTM/ZoneoutLSTM, self/causal/rotary/relative-position/cross attention, LayerNorm, RMSNorm, GroupNorm, BatchNorm (eval, training with and without "
        "mask, running statistics), Normalize, Linear, Embedding, feed-forward blocks, stft, mel filterbank, log-mel, sinusoidal and relative positional encodings (for any history of calls and dims) give the documented formula per sequence; "
        "rf.dropout in training gives each value either 0 or scaled by 1/keep_prob with a mask shared exactly along the axes not listed, and is the identity otherwise; SpecAugment masks only whole frames/features within the documented bounds and only in training."
    ),
    over=["inputs", "histories"],
    quant="all inputs, parameters, options and call histories",
    why="tests compare shapes or one fixed input; a wrong gate, scale, mask or cached table trains worse models without any error",
    files=["returnn/frontend/conv.py", "returnn/frontend/attention.py", "returnn/frontend/rec.py", "returnn/frontend/normalization.py", "returnn/frontend/signal.py", "returnn/frontend/audio/mel.py", "returnn/frontend/audio/specaugment.py", "returnn/frontend/dropout.py", "returnn/frontend/linear.py", "returnn/frontend/_cache.py", "returnn/torch/frontend/_backend.py"],
    mech=[("RelPosSelfAttention", "returnn/frontend/attention.py"), ("Cache", "returnn/frontend/_cache.py"), ("TorchBackend", "returnn/torch/frontend/_backend.py")],
    observe=["outputs, final states and running statistics"],
    technique="runtime monitoring: online oracle (independent numpy definition per sequence) on the results of the real layers, long call histories for the caches",
    note="held on explored layers, options and inputs",
)
P(
    id="C22",
    title="Arithmetic on dims gives the arithmetic on the sizes, for every batch",
    statement=(
        "For all dims (static, scalar dynamic, one length per sequence) and all expressions with +, -, *, //, /, ceildiv from the right and from the left, by ints and by dims, where no (sub)expression has a negative value: the resulting dim has for every sequence exactly the size that integer "
        "arithmetic on the sizes gives, its dim value (capacity) is not smaller than any of them, its mask marks exactly the valid frames, and tensors created over it are consistent. This stays so for the next batches (reset_eager of the dynamic dims, new sizes, the "
        "expression derived again), after pickling, and after declare_same_as (which makes dims equal, with equal hash and size). Building the same expression again gives an equal dim, a+b-b and the like give a again, == is an equivalence relation consistent with hash, and equal dims have equal sizes."
    ),
    over=["inputs", "histories"],
    quant="all sizes, expressions and sequences of batches",
    why="tests check a few fixed expressions symbolically; wrong lengths only show for particular combinations of lengths, or in the second batch",
    files=["returnn/tensor/_dim_extra.py", "returnn/tensor/dim.py"],
    mech=[("_DimMixin.complete_dyn_size", "returnn/tensor/_dim_extra.py"), ("_OpLinearTerm", "returnn/tensor/_dim_extra.py"), ("_CacheDimMath", "returnn/tensor/_dim_extra.py")],
    observe=["size tensors, dim values, masks, tensors over the dims, ==, hash and order"],
    technique="runtime monitoring: online oracle (integer arithmetic per sequence) on every dim created in random histories",
    note="held on explored expressions and histories; eager PyTorch backend, behaviour version 24",
)
P(
    id="C09",
    title="PostprocessingDataset delivers exactly the mapped stream of the wrapped dataset",
    statement=(
        "For every wrapped dataset, map_seq / map_seq_stream function and history of epochs: the delivered sequences are exactly what the function gives for the sequences of the wrapped dataset in their order; map_seq is called exactly once per sequence with the right data, epoch, "
        "seq_idx and tag; tags and complete_frac are kept unless the function changes them; num_seqs is that of the wrapped dataset whenever the function keeps the number; the rng given to the function only depends on the epoch (reproducible for the same epoch, in every instance "
        "and after every history, different for different epochs). LaplaceOrdering reorders only within consecutive bins of the given size, alternately ascending and descending in length, with complete_frac not reordered; Sequential composes in the given order. "
        "Predefined orders are followed with map_seq and refused with map_seq_stream."
    ),
    over=["inputs", "histories", "configurations"],
    quant="all corpora, map functions, orderings, partitions, reading patterns and epoch histories with at least one delivered sequence",
    why="tests run single fixed corpora; bin remainders, partial reads, re-initialisation and streams changing the number of sequences are joint",
    files=["returnn/datasets/postprocessing.py", "returnn/datasets/cached2.py"],
    mech=[("PostprocessingDataset._iterate_dataset", "returnn/datasets/postprocessing.py"), ("LaplaceOrdering", "returnn/datasets/postprocessing.py")],
    observe=["delivered sequences, tags, complete_frac, num_seqs; recorded calls of the map function"],
    technique="runtime monitoring: stream oracle on recorded map calls and delivered sequences over random epoch histories",
    note="held on explored corpora, functions and histories",
)

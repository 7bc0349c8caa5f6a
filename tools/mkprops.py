"""Regenerates properties.jsonl (the list is kept here for readability)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
            'mechanism': [dict(name=a, where=b) for a, b in mech],
            'observe_at': list(observe), 'hook_needed': None}})


p('C01', 'Checkpoint saves are atomic, complete and crash-safe on every host schedule',
  'At every instant of a save, and after a crash at any instant, every checkpoint that is visible under its final name and is the newest is complete (every array shard, every non-partitioned value and every data-iterator shard of that step, written by all hosts), and it restores to exactly the state that was saved. Leftovers of an interrupted save never become visible as a checkpoint, never block a later save, and all hosts finish the save without deadlock, each having passed the same barriers; no host\'s save returns before the checkpoint is visible.',
  ['schedules', 'crash_points', 'histories'],
  'all interleavings of hosts during a save, all crash points between file-system operations, all histories of saves/crashes/restores',
  'The unit tests of the checkpointer run one host with mocks, no interleaving and no crash; the property quantifies over all of them.',
  ['t5x/checkpoints.py', 't5x/checkpoints_utils.py', 't5x/checkpoint_utils.py'],
  [('write to <final>.tmp-<ts>, barriers, rename by host 0', 't5x/checkpoints.py:Checkpointer.save'),
   ('regex that ignores temporary directories', 't5x/checkpoints_utils.py:all_steps')],
  ['directory listing', 'restored state'],
  [('final', 'steps visible under the final name', 'checkpoints dir'),
   ('tmp', 'directories of unfinished saves', 'checkpoints dir')])
p('C02', 'Retention keeps the newest checkpoints and never deletes a pinned one',
  'After every completed save with a limit of N, exactly the newest N checkpoints plus every pinned (always-keep) checkpoint remain, and with no limit nothing is ever deleted; data-iterator state obeys its own separate limit in the same way and its removal leaves the rest of the checkpoint intact. A checkpoint pinned at any time before a clean-up reaches it is never removed, and the newest (highest-step) checkpoint is never removed.',
  ['histories', 'configurations'],
  'all histories of saves (any step order), pins and restarts; all limits',
  'Tests sample two or three saves with one limit; the guarantee is over all histories and limits, with pins.',
  ['t5x/checkpoints.py', 't5x/checkpoint_utils.py'],
  [('oldest-first removal', 't5x/checkpoints.py:Checkpointer._remove_old_checkpoints'),
   ('pinned file', 't5x/checkpoint_utils.py:remove_checkpoint_dir')],
  ['directory listing after each save'])
p('C03', 'Best-checkpoint retention keeps the best by the monitored metric',
  'With best-checkpoint retention and limit N, a clean-up keeps the checkpoints with the best recorded values of the monitored metric in the requested direction, plus pinned ones and the newest one, and never removes a checkpoint while a strictly worse unprotected one is kept. Checkpoints without a recorded value are only kept or removed according to the documented "keep those without metrics" option.',
  ['histories', 'configurations', 'inputs'],
  'all metric histories (missing, tied, unordered), modes min/max, limits and pin sets',
  'Tests sample a few fixed metric sequences.',
  ['t5x/checkpoints.py', 't5x/checkpoint_utils.py'],
  [('metric-sorted removal', 't5x/checkpoints.py:SaveBestCheckpointer')],
  ['directory listing after each save'])
p('C04', 'A restored state equals the saved state, for the step that was asked for',
  'Restoring a checkpoint yields the parameters, optimizer state, step, and data-iterator position that were saved for that very step, with parameter dtypes given by the save and restore dtype options and everything else unchanged; asking for no step gives the newest, a step or path gives exactly that one. This holds through every API (classic, Orbax-backed, load-without-model), eager or lazy, for any partitioning of the arrays at save and restore time.',
  ['inputs', 'configurations', 'histories'],
  'all state trees, partitionings, dtype options, steps (0 included), and ways of naming the checkpoint',
  'Round-trip tests sample one tiny state with one configuration; step 0, mixed legacy directories and dtype options are not crossed.',
  ['t5x/checkpoints.py', 't5x/train_state.py', 't5x/checkpoint_importer.py'],
  [('restore path selection', 't5x/checkpoints.py:Checkpointer.restore'),
   ('Orbax interface', 't5x/checkpoints.py:OrbaxCheckpointManagerInterface')],
  ['restored values'])
p('C05', 'Restarting a job restores from the documented source in preference order',
  'A starting job restores from its own output directory if that holds a checkpoint, otherwise from the configured pre-trained checkpoints in order of the documented mode (latest, all, specific steps), otherwise from scratch, and the assignment map and state transformations are applied only to foreign checkpoints, never on resumption. The restored step, and the set of checkpoints visited for evaluation (each recorded checkpoint once, ascending), follow exactly from the directory contents and configuration; a job that only restores leaves the directory it reads from as it is.',
  ['configurations', 'histories'],
  'all directory contents crossed with all restore configurations',
  'Tests use mocks for single configurations.',
  ['t5x/utils.py', 't5x/checkpoint_utils.py'],
  [('restore preference', 't5x/utils.py:create_checkpoint_manager_and_restore'),
   ('path selection', 't5x/utils.py:get_restore_paths')],
  ['restored state'])
p('C06', 'Checkpoint state surgery moves exactly the requested leaves',
  'Applying assignment rules takes, for every target parameter, the value of the source parameter named by the first matching rule (or keeps the same name when none matches, or leaves the fresh initialisation when the rule says so), and merging or intersecting states never mixes, drops or invents leaves. A requested source that does not exist is an error instead of a silent default.',
  ['inputs', 'configurations'],
  'all state trees and rule lists',
  'Unit tests enumerate a handful of trees and rules.',
  ['t5x/state_utils.py', 't5x/train_state.py'],
  [('assignment map', 't5x/state_utils.py:apply_assignment_map'),
   ('merge/intersect', 't5x/state_utils.py')],
  ['resulting state dict'])
p('C07', 'The training loop runs exactly the requested steps, saves and evaluations',
  'Training applies exactly one optimizer step per batch from the restored step up to the requested total, never skipping or repeating a step; checkpoints are written exactly at the configured period, the explicitly listed steps and the end, evaluations run at epoch boundaries only, and the loop terminates. Early stop and preemption end it at a step boundary with the state saved at the step it reports.',
  ['configurations', 'histories', 'schedules'],
  'all combinations of total steps, restored step, evaluation period, checkpoint period, explicit checkpoint steps, early stop and preemption points',
  'There is no test of the whole loop; the arithmetic is spread over nested loops and quantified over six integers.',
  ['t5x/train.py', 't5x/utils.py', 't5x/trainer.py'],
  [('nested epoch/inner loops', 't5x/train.py:train'),
   ('next checkpoint step', 't5x/utils.py:find_next_checkpoint_step')],
  ['trainer calls', 'checkpoint directory', 'final step'])
p('C08', 'Interrupting and resuming training equals an uninterrupted run',
  'A run that is stopped after any checkpoint and resumed (any number of times) ends in the same parameters, optimizer state and step as an uninterrupted run, and with data-iterator checkpointing it consumes the same sequence of batches without skipping or repeating any. The per-step randomness depends only on the seed and the step number, not on where the process was restarted.',
  ['histories', 'crash_points'],
  'all sets of interruption points',
  'No test resumes training end to end.',
  ['t5x/train.py', 't5x/trainer.py', 't5x/checkpoints.py'],
  [('fold_in(step) RNG', 't5x/trainer.py:BaseTrainer.train'),
   ('restore of step and iterator', 't5x/train.py')],
  ['batches consumed', 'RNG per step', 'final state'])
p('C09', 'Micro-batched gradients equal full-batch gradients with one update per step',
  'For every number of micro-batches that divides the batch, one training step accumulates every example exactly once, sums gradients and metrics over the micro-batches, applies exactly one optimizer update with the scheduled learning rate for that step, draws fresh randomness for every micro-batch and increments the step by one. A micro-batch count that does not divide the batch is rejected.',
  ['inputs', 'configurations'],
  'all batches, micro-batch counts and learning-rate schedules',
  'Tests use one batch and mostly mocks.',
  ['t5x/trainer.py'],
  [('accumulation loop', 't5x/trainer.py:accumulate_grads_microbatched'),
   ('update', 't5x/trainer.py:apply_grads')],
  ['new state', 'metrics'])
p('C10', 'Metrics are aggregated exactly and written in order',
  'The reported value of a metric over several batches or hosts equals the value over the concatenated data, whatever the grouping and order of merging, and steps-per-second style rates count each step once. Summaries are written once per reported step, in the order they were produced, and flushing or closing waits for everything queued.',
  ['inputs', 'schedules', 'histories'],
  'all groupings/orders of merging; all interleavings of the asynchronous writer with the caller',
  'Tests merge two fixed values; the asynchronous queue is not exercised under varied schedules.',
  ['t5x/metrics.py', 't5x/trainer.py'],
  [('merge', 't5x/metrics.py'), ('background pool and event order', 't5x/trainer.py:MetricsManager')],
  ['computed metrics', 'written summaries'])
p('C11', 'Early stopping and NaN actions trigger exactly when documented',
  'Early stopping fires at the first evaluation at which none of the last `patience` values of the metric is better than the value before it by more than the tolerance (atol + rtol * |previous value|), in the configured direction, and not before; evaluations without the metric do not count. The non-finite-loss action fires exactly when the watched value is NaN or infinite, and each action looks only at its own task, metric and mode.',
  ['histories', 'configurations'],
  'all metric histories, modes, patience and delta values',
  'Tests sample a few metric sequences.',
  ['t5x/trainer.py'],
  [('history window', 't5x/trainer.py:EarlyStoppingAction'),
   ('NaN check', 't5x/trainer.py:TerminateOnNanAction')],
  ['return value of the action'])
p('C12', 'Inference returns exactly one correctly paired result per input',
  'Running inference over a non-empty dataset of any size, with any batch size and number of hosts, data shards and devices, yields on every host exactly one output per input example, with the index of that example, in the order of the input: what the inference step computes for that row with the given parameters and mutables. Padding examples are dropped and none is duplicated. This holds for every nested structure of outputs; auxiliary outputs (a mapping as second part) come apart, in the same order, as lists or, if asked for, rows of numpy arrays. Each batch gets a random key of its own derived from the given one, no key where none is given, and the same key gives the same results.',
  ['inputs', 'configurations'],
  'all dataset sizes, batch sizes, host counts and output structures',
  'Tests use one or two sizes with one process.',
  ['t5x/utils.py'],
  [('padding, sharding, gather and re-sort', 't5x/utils.py:get_infer_fn')],
  ['returned list'])
p('C13', 'Batch inference to files survives interruption without loss or duplication',
  'A file-inference job over a non-empty dataset that is interrupted at any point and restarted with the same configuration (any number of times) finally produces, for every shard, an output that holds exactly one record per input, in input order, identical to that of an uninterrupted run, and a finished job is recognised as finished and left untouched.',
  ['crash_points', 'histories'],
  'all crash points between file operations, any number of restarts, all chunk sizes',
  'There is no test of restart.',
  ['t5x/infer.py'],
  [('chunk files, iterator checkpoint, completion marker', 't5x/infer.py:write_inferences_to_file and infer')],
  ['output files'])
p('C14', 'Partitioning assigns every array element and batch row to exactly one owner',
  'For every mesh shape, host count and partition spec, the chunks that the hosts own tile each array exactly, each chunk has exactly one designated writer, every host set that shares data gets one shard id with exactly one first host, the shard ids cover the batch exactly once, and shard count times per-shard batch equals the global batch. Every device is in the mesh once, and on accelerator grids each model-parallel group is a box of the requested shape. Configurations that cannot satisfy this are rejected.',
  ['configurations'],
  'all mesh shapes, process counts and orders, array shapes and specs within bounds',
  'Tests sample a few mocked TPU topologies.',
  ['t5x/partitioning.py'],
  [('mesh bounds and host locations', 't5x/partitioning.py:LocalChunker'),
   ('data layout', 't5x/partitioning.py:BasePartitioner.get_data_layout')],
  ['local chunk info', 'data layout'])
p('C15', 'Logical axes map by first applicable rule, never sharing a mesh axis',
  'Every array dimension is mapped by the first rule for its logical name whose mesh axes are all still free for that array, no mesh axis is used by two dimensions of one array, dimensions without an applicable rule are replicated, an explicit null rule stops the search, and a name that occurs twice in one array is an error. Name-pattern overrides replace exactly the entries whose full path matches, and standard rule sets are consistent for every parallelism setting.',
  ['inputs', 'configurations'],
  'all rule lists and axis-name tuples within bounds',
  'Tests sample a handful of rule lists.',
  ['t5x/partitioning.py'],
  [('logical_to_mesh', 't5x/partitioning.py:PjitPartitioner.get_logical_axes'),
   ('override', 't5x/partitioning.py:PjitPartitioner.get_mesh_axes')],
  ['PartitionSpec tree'])
p('C16', 'Beam search returns the best hypotheses with their true scores',
  'For every model, prompt and length limit, beam search returns hypotheses sorted by score, whose score is the length-normalised log-probability the model assigns to that very sequence; each begins with its prompt, ends at its first end token (or the length limit), is distinct, and with a beam at least as wide as the search space the best possible sequence is found. Batch elements do not influence each other, and the incremental cache follows its hypothesis.',
  ['inputs', 'configurations'],
  'all next-token distributions (history dependent), prompts, beam widths, length limits and length penalties within bounds',
  'Tests use a few hand-made distributions; hypothesis/cache reordering bugs need specific score crossings.',
  ['t5x/decoding.py', 't5x/models.py'],
  [('live/finished beam bookkeeping', 't5x/decoding.py:beam_search')],
  ['returned sequences and scores'])
p('C17', 'Sampling decodes continue the prompt, stop at end token, and report true scores',
  'For every prompt, batch and length limit, a sampled sequence starts with its prompt, every later token is one the (temperature-scaled, top-k, top-p filtered) distribution allows at that point, nothing follows the first generated end token, and the returned log-probability is that of the returned tokens. Zero temperature is greedy, rows of a batch (and repeated decodes) do not influence each other, results are sorted by score and the same random key gives the same result.',
  ['inputs', 'configurations'],
  'all next-token distributions, prompts, lengths, k/p/temperature values within bounds',
  'Tests sample few distributions; prompt and length combinations are quantified over.',
  ['t5x/decoding.py'],
  [('sampling loop', 't5x/decoding.py:_temperature_sample_single_trial and temperature_sample')],
  ['returned sequences and scores'])
p('C18', 'Top-k and top-p masks keep exactly the intended tokens',
  'Top-k filtering keeps the k highest-probability tokens (more only if tied with the k-th) and top-p keeps the smallest set of most probable tokens whose mass reaches p, for every batch shape and input, leaving kept scores unchanged and replacing all others. The searches behind them return the exact threshold for every monotone predicate.',
  ['inputs'],
  'all score vectors (ties included), k, p, and replacement values within bounds',
  'Tests sample random vectors.',
  ['t5x/binary_search.py', 't5x/decoding.py'],
  [('bitwise binary search', 't5x/binary_search.py')],
  ['masked scores'])
p('C19', 'Attention never crosses masks, and cached decoding equals full decoding',
  'The output at a target position depends only on tokens its masks let through, directly or through layers in between: tokens at the same or earlier decoder positions (and, with bidirectional prefixes, the whole of the prefix from inside it), encoder tokens other than padding, and in packed rows only tokens of the same segment; it depends on all of these. The identity of target tokens does not matter, only where there is padding. A packed example gives the logits it gives alone, and rows of a batch are independent. Decoding token by token with a cache, from any prompt and with any number of decodes per example, gives the logits of running the full sequences at once; decoded sequences start with their prompt (removed from the answer of decoder-only models), greedy tokens are the most probable ones, scores are the log-probabilities of the tokens after the prompt up to the first end token, and nothing follows an end token. The decoding function is handed exactly the prompt (for encoder-decoder models the given targets without end tokens, when asked for; for decoder-only models the inputs), and the last of its answers or, if asked for, all of them are returned with their scores.',
  ['inputs', 'configurations'],
  'all sequences, segmentations, prefixes and lengths within bounds, for each shipped architecture',
  'Layer tests use a few fixed inputs.',
  ['t5x/examples/t5/layers.py', 't5x/examples/decoder_only/layers.py', 't5x/examples/scalable_t5/layers.py', 't5x/examples/decoder_only/network.py', 't5x/examples/t5/network.py', 't5x/models.py'],
  [('mask construction', 't5x/examples/*/layers.py:make_decoder_mask'),
   ('KV cache', 't5x/examples/*/layers.py:MultiHeadDotProductAttention')],
  ['logits'])
p('C20', 'Loss counts exactly the weighted target tokens under every normalisation option',
  'The training loss of a batch is the sum over target tokens of weight times token loss, divided by the configured normalising factor: none, a constant, the sum of the weights (NUM_REAL_TARGET_TOKENS), the number of target positions including padding (NUM_TOTAL_TARGET_TOKENS), or, for AVERAGE_PER_SEQUENCE, the mean over the examples (packed ones separately, those without weight left out) of their weighted mean token losses. Weights are decoder_loss_weights where given; otherwise padding has weight zero under the special factors and all positions count alike under none or a constant. The token loss is the cross entropy, with label smoothing less the entropy of the smoothed target, plus the z-loss coefficient times the squared logarithm of the normaliser. Gradients are those of this loss, and values at positions of weight zero affect neither. The reported loss and z-loss metrics agree with it, counts of packed examples and padding are right, and scores of a batch are the weighted sums of target log-probabilities per row, without z-loss. Unknown factor names and logits whose rank does not fit the targets are rejected with ValueError.',
  ['inputs', 'configurations'],
  'all batches, packings (padding at the end of rows), weights and normalisation options within bounds, on one device or several',
  'Tests sample one or two batches per option.',
  ['t5x/losses.py', 't5x/models.py'],
  [('normalising factor', 't5x/losses.py:get_loss_normalizing_factor_and_weights')],
  ['loss, weights, factor'])
p('C21', 'Train state survives conversion and replacement without loss',
  'Converting a train state to a state dictionary and back, replacing parameters, flax mutables or step, and deriving logical axes keep every other part of the state unchanged, for every optimizer state structure. The axes tree always has the same structure as the state it describes.',
  ['inputs', 'histories'],
  'all sequences of conversions and replacements on states of different structure',
  'Tests sample single operations on one state.',
  ['t5x/train_state.py', 't5x/optimizers.py'],
  [('state_dict/restore_state', 't5x/train_state.py:FlaxOptimTrainState')],
  ['state dict'])
p('C22', 'Importing with garbage collection off always restores the previous setting',
  'However guarded imports and regions of a thread nest or fail, garbage collection is off inside (unless code inside switches it on itself) and is on again afterwards exactly if it was found on; imports are only guarded when the option asks for it.',
  ['histories', 'fault_sequences'],
  'all nestings of guarded imports, with failures at any point',
  'Tests check two nestings.',
  ['t5x/disable_gc_during_import.py'],
  [('reference count', 't5x/disable_gc_during_import.py')],
  ['gc.isenabled()'])
p('C23', 'Several optimizers update exactly the parameters assigned to each',
  'With several optimizers, every parameter is updated by exactly the optimizer whose selector matches it, with that optimizer\'s hyper-parameters (a given learning rate overriding them for all) and state and as if the optimizer were alone with its parameters; parameters matched by none stay unchanged, selectors that overlap are refused, and the combined state can be saved, restored and partitioned like a single one.',
  ['inputs', 'configurations'],
  'all parameter trees and selector lists within bounds, over several steps',
  'Tests sample one tree.',
  ['t5x/optimizers.py'],
  [('traversals', 't5x/optimizers.py:MultiOptimizer')],
  ['parameters and state after each step'])
p('C24', 'Learning-rate schedules follow their factor string at every step',
  'The learning rate at a step equals the product of the named factors evaluated at that step relative to the schedule offset, including warm-up clamp and decay boundaries, for every factor combination; an unknown factor is an error.',
  ['inputs', 'configurations'],
  'all factor strings, steps and parameters within bounds',
  'Tests sample few steps.',
  ['t5x/utils.py'],
  [('factor product', 't5x/utils.py:create_learning_rate_scheduler')],
  ['returned learning rate'])
p('C25', 'Sharded data iterators feed every host the right rows and resume exactly',
  'The rows a host reads from the input pipeline land, in order, on the devices of that host\'s data shard, so that the global batch holds each shard\'s rows exactly once; training shards never share an example, evaluation shards together read what one shard alone would; batches that the shards do not divide are refused; and saving and restoring the iterator at any point continues with the next batch.',
  ['configurations', 'histories'],
  'all mesh layouts within bounds, all save/restore points',
  'Tests mock the partitioner.',
  ['t5x/utils.py', 't5x/partitioning.py'],
  [('ShardedDatasetIterator', 't5x/utils.py'), ('dataset config checks', 't5x/utils.py:get_dataset')],
  ['global arrays'])
p('C26', 'Lazy arrays load only on demand, with the declared shape and dtype',
  'A lazily restored array declares, and on demand yields, the value, shape and dtype that an eager restore yields, however often or concurrently it is read, and storage is not touched before a value is demanded. Casting a lazy array never changes or loads the original.',
  ['histories', 'schedules'],
  'all sequences and interleavings of get/astype/asynchronous reads',
  'Tests sample one call sequence.',
  ['t5x/checkpoint_importer.py'],
  [('LazyArray', 't5x/checkpoint_importer.py')],
  ['values', 'fetch count'])

p('C27', 'Adafactor updates every parameter by its rule, whatever its layout',
  'Each step Adafactor updates every parameter element as its rule and options say: second moments are running means with the decay of the step counted from the offset, factored exactly for the parameters and dimensions that the first matching rule, the logical axis names or the sizes name, update clipping and parameter scale are computed per parameter and separately for each layer of a stacked one, and momentum, weight decay, global-norm clipping and the skipping of non-finite updates act as configured. Splitting, permuting or stacking dimensions does not change the update; rules that do not fit a parameter are refused, and data types stay as declared.',
  ['inputs', 'histories'],
  'all parameter trees, factorization rules, options and sequences of gradients',
  'Tests sample few shapes and options and most of them need a fixed environment.',
  ['t5x/adafactor.py'],
  [('Adafactor', 't5x/adafactor.py'), ('HParamMap', 't5x/adafactor.py')],
  ['parameters', 'optimizer state'])

p('C28', 'Mixtures of experts are laid out, trained and restored as the dense model would be',
  'With expert parallelism the data axis of the plain mesh is cut into data and expert axes by the largest number of experts that fits, over the same groups of model-parallel devices; hosts, arrays and batches are laid out over (expert, data) so that every row lies on exactly one shard, numbered in the order of the rows; the state of expert parameters, and only theirs, is spread over the experts; gradients of exactly the selected parameters are rescaled; the loss is the dense loss plus the weighted mean auxiliary losses, reported apart from cross entropy; and a dense checkpoint is upcycled by giving every expert a copy of the dense layer, what it lacks staying freshly initialised.',
  ['configurations', 'inputs', 'histories'],
  'all topologies, meshes, rules, parameter trees and batches within bounds; dense training, upcycling and sparse training in sequence',
  'Tests sample a mesh, a tree and a step or two with mocks.',
  ['t5x/contrib/moe/partitioning.py', 't5x/contrib/moe/models.py', 't5x/contrib/moe/trainer.py', 't5x/contrib/moe/training_utils.py', 't5x/contrib/moe/checkpoints.py'],
  [('MoePjitPartitioner', 't5x/contrib/moe/partitioning.py'), ('MoeTrainer', 't5x/contrib/moe/trainer.py'),
   ('UpcycleCheckpointer', 't5x/contrib/moe/checkpoints.py')],
  ['mesh and layouts', 'losses and metrics', 'parameters after each step and after upcycling'])
p('C29', 'Importing a T5 checkpoint puts every tensor in its one place',
  'For every architecture (encoder-decoder or language model, shared or own embeddings and relative biases, gated or not) a T5 checkpoint of Mesh TensorFlow is imported so that every tensor (parameter, Adafactor slot factored or not, step) arrives unchanged at exactly the one place it belongs to in the model, partitioned as the model asks, and what Adafactor keeps beyond is zero. Tensors of unknown names, tensors the model lacks (unless not strict), missing tensors and differing shapes are errors, never silently skipped. Lazy and eager imports agree, and so does restoring the converted checkpoint.',
  ['inputs', 'configurations'],
  'all architectures, depths (multi-digit layer numbers), factorings, checkpoint contents and ways to import within bounds',
  'Tests import one stored checkpoint or one name at a time.',
  ['t5x/checkpoint_importer.py', 't5x/checkpoints.py'],
  [('T5CheckpointImporter', 't5x/checkpoint_importer.py'), ('restore_from_tf_checkpoint', 't5x/checkpoints.py'),
   ('OrbaxCheckpointManagerInterface.restore_from_tf_checkpoint', 't5x/checkpoints.py')],
  ['the imported train state', 'its sharding', 'errors raised'])
p('C30', 'Training with a wrapped Optax optimizer is training with Optax itself, wherever it is interrupted',
  'Whatever transformations an Optax optimizer is composed of (chains, masks, labels, accumulated, conditional or guarded updates, moments, schedules), a train state that wraps it holds after every step the parameters, optimizer state and step that Optax defines for the gradients seen since it began; dumping and restoring at any point, into any state and from a dictionary in any order, changes nothing; a dictionary without some place of the state is refused; and state that mirrors a parameter is partitioned as that parameter, everything else replicated.',
  ['histories', 'inputs', 'configurations'],
  'all compositions of transformations, parameter trees, gradients and interleavings of steps, dumps and restores within bounds',
  'Tests run a fixed optimizer for a step, or look only at the structure of its state.',
  ['t5x/optimizers.py', 't5x/train_state.py'],
  [('OptaxWrapper', 't5x/optimizers.py'), ('OptaxStatePartitionRules', 't5x/optimizers.py')],
  ['parameters and optimizer state after every operation', 'logical axes'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))

"""Regenerates MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = 'TLA+ specification checked with TLC; recorded histories of the real code validated against it'
RP = 'TLA+ specification checked with TLC; TLC-generated behaviours replayed into the real code'
CLAIMS = {
    'C01': (TV + ' (all crash points, controlled host schedules)',
            'The save protocol is checked exhaustively for 2-3 hosts; the real Checkpointer is run under '
            'controlled schedules with a crash at every (or a sample of) file-operation boundary and each '
            'visible directory state is validated by TLC. Hosts are threads; barrier, broadcast and the '
            'multi-host array writer are stand-ins with JAX\'s contract; rename is assumed atomic.'),
    'C02': (RP + ' and the resulting directory histories validated by TLC',
            'Exhaustive for the retention design up to 4 steps; the code is exercised on generated histories '
            'of saves, pins, crashes and restarts with 8 limit configurations.'),
    'C03': (RP + ' and validated by TLC',
            'Exhaustive for small step and value sets; the code is driven on generated histories with real '
            'TensorBoard event files. NaN metric values are out of scope.'),
    'C04': (RP,
            'The value model is checked exhaustively for small bounds; generated behaviours (saves and restores '
            'through the classic, Orbax and model-free APIs, dtypes, path forms, lazy or eager, six partitionings, '
            'seven optimizer states) are replayed bit-exactly. One host process.'),
    'C05': (TV + '; configuration resolution judged by the specification',
            'The job and evaluation life cycles are checked exhaustively for small bounds; generated directories and '
            'restore configurations are resolved by the real code and judged, and real training and evaluation jobs are '
            'started, killed and restarted over real classic and Orbax checkpoints, every history validated by TLC. '
            'Evaluating all checkpoints of several directories at once is out of scope.'),
    'C06': (RP.replace('TLC-generated behaviours replayed into', 'every recorded call and restore judged by TLC against the specification of'),
            'The rule semantics is checked exhaustively for small states; generated states and rule lists are given to '
            'the assignment map, merge and intersection and to real classic and Orbax restores, each outcome decided by '
            'TLC. Patterns are component-wise (constants, one-component and tail wildcards).'),
    'C07': (TV,
            'The loop design is checked exhaustively for small configurations (safety and termination); random jobs '
            'with preemptions, crashes, restarts and stop requests are run through the real train() and BaseTrainer '
            'with recording stand-ins for model step, checkpoint manager and evaluator, every history validated by TLC.'),
    'C08': (TV,
            'The resume design is checked exhaustively for small bounds; random jobs (six optimizers, meshes, mutables, '
            'classic and Orbax checkpoints, warm starts, evaluation) run the real train() with real trainer, data '
            'iterator and checkpoints through crashes, preemptions, stops and restarts, and TLC compares batches and '
            'digests of the whole state with the uninterrupted run. Repeatable hardware and one host are assumed.'),
    'C09': (TV, 'Exhaustive for small batches and micro-batch counts; real training steps (meshes of 1-4 devices, mutable '
            'variables, chunks of 1-3 steps, integer-valued gradients) are validated exactly. Gradients are integers, so '
            'the order of floating-point summation is out of scope.'),
    'C10': (TV + '; reported values judged by the specification', 'Merging is checked exhaustively for short data and '
            'the background queue for a few summaries and clients; generated rows are merged in random groupings and every '
            'reported value is judged as an exact fraction; the real manager runs with a slow, failing writer, a controlled '
            'clock and several client threads (schedules sampled by delays), every history validated. One host process.'),
    'C11': (TV, 'Two formulations of the stopping rule are checked against each other exhaustively for short histories; all '
            'histories of four values and random longer ones are given to the real actions and every answer validated. '
            'patience of one (which would stop at the first evaluation) and NaN values of early stopping are out of scope.'),
    'C12': (TV.replace('recorded histories of the real code validated against it', 'calls of the real code judged by it'),
            'Hosts feeding their shards batch by batch and ordering what comes back are a machine, checked for all small sizes '
            'and interleavings. Random sizes, batch sizes, output structures, mutables and keys are run on 8 devices with the '
            'real partitioner, and with up to 6 hosts in 1 to 4 data shards (threads that exchange parts of global arrays at '
            'barriers); what every host returns is judged.'),
    'C13': (TV,
            'The job and its file protocol (chunks, iterator checkpoints, pointer, merge, marker, deletion) are two machines; '
            'the protocol refines the job under all crashes. The real infer() runs small jobs; a picture of its directory '
            'is taken after every file operation (and in the middle of writes), the job is restarted from pictures, from '
            'pictures of restarts, and after exceptions in the model and in writing, and TLC validates every history. '
            'One host; crash points lie between file operations as the process issues them.'),
    'C14': (TV.replace('recorded histories of the real code validated against it', 'layouts of the real code judged by it'),
            'Building a mesh and a layout from a grid of devices on hosts is a machine, checked for all small grids. The real '
            'mesh construction, chunking and data layouts run as every host of topologies (all boxes of small accelerator '
            'grids, and random ones with shuffled devices and host orders, GPU and CPU hosts, slices) and TLC judges the '
            'union of what all hosts say. Grids may be rejected only where the requested box does not fit (or needs the z-major '
            'order that the code documents as restricted).'),
    'C15': (TV.replace('recorded histories of the real code validated against it', 'mappings of the real code judged by it'),
            'Choosing rules dimension by dimension is a machine, checked for all small rule lists. Random rule lists (all '
            'standard sets for every parallelism among them), axis names and overrides go through the real partitioner on '
            'whole parameter trees; TLC judges every entry. The rule engine itself is in flax; t5x\'s use of it is judged.'),
    'C16': (TV.replace('recorded histories of the real code validated against it', 'answers of the real code judged by it'),
            'The search is checked for random small models (early stop harmless, a wide beam finds the best sequence); the '
            'real search runs on random history dependent models (prompts, prefilled caches, scanned caches, length limits '
            'and penalties, widths), each hypothesis is followed and scored, and the search repeated, by TLC. Where '
            'candidates tie only soundness is judged. Prompts without end tokens; fewer candidates than slots leave '
            'filler slots, which are not judged.'),
    'C17': (TV.replace('recorded histories of the real code validated against it', 'answers of the real code judged by it'),
            'The lock-step loop is checked exhaustively for two short rows; the real sampler runs on random history '
            'dependent models with integer weights (prompts, prefilled and scanned caches, limits, top-k, top-p, '
            'temperatures static or traced) and every sequence and score is judged; draws are also judged by frequency '
            '(seven standard deviations). Prompts have no gaps.'),
    'C18': (TV.replace('recorded histories of the real code validated against it', 'calls of the real code judged by it'),
            'The search over bits is checked for all thresholds of small words (integers and floats with small exponents), the '
            'masks for all small vectors; random and extreme calls of the real functions (batch shapes, dtypes, static and '
            'traced arguments) are judged row by row. p lies strictly between reachable masses (or is one), ties with the '
            'last kept value are kept, denormals count as zero.'),
    'C19': (TV.replace('recorded histories of the real code validated against it', 'calls of the real code judged by it'),
            'Step-by-step decoding with a cache and the full computation are machines over what each layer has seen, checked '
            'equal on all prompts and lengths of small rows, and mask reachability on all small packings. The six shipped '
            'network variants (t5, scalable with and without scan and remat, GPU, decoder-only causal and prefix), tiny and '
            'with random parameters, are measured: how outputs move with every token, packed against alone, cached steps along '
            'forced sequences against whole sequences, and searched and sampled answers. Each packed example has at least '
            'one token on both sides; outputs at padding are free. float32, no dropout.'),
    'C20': (TV.replace('recorded histories of the real code validated against it', 'calls of the real code judged by it'),
            'The loss in integer arithmetic (logits are logarithms of small integers, 1e-5 units) is checked on all packings of a '
            'short row under every option: the two passes that sum weights per example, independence of zero-weight positions, '
            'scale and packing freedom, gradients as tangents. Random batches through losses.py, whole models (loss, gradients, '
            'metrics) and score_batch are judged by it. A batch has some weight, packed rows have padding only at the end.'),
    'C21': (TV, 'The algebra of states and dictionaries is checked exhaustively for three states and one (quick) or two '
            'dictionaries; random histories of conversions, replacements, edits and training steps over 36 optimizer '
            'structures and inference states are validated, all live states and dictionaries observed after every '
            'operation. Mutables come with axes; optax states the code declares unsupported are out of scope.'),
    'C22': (TV, 'Exhaustive for nesting depth 5 (quick) or 9; generated nests of importing, failing and switching modules run '
            'in a real interpreter and every step is validated. Guards of several threads at once (which share the one '
            'setting of the interpreter) are out of scope.'),
    'C23': (TV, 'Exhaustive for two (quick) or three parameters and optimizers; random trees, selectors, overrides and round '
            'trips run through the real MultiOptimizer, integer updates recomputed by TLC and Adafactor compared with each '
            'optimizer alone. Wrapped optax optimizers inside it are unsupported by the code (TODO there) and out of scope.'),
    'C24': (TV.replace('recorded histories of the real code validated against it', 'schedules evaluated by the real code judged by it'),
            'The schedule is checked along all steps of small runs; generated factor lists and parameters are evaluated by '
            'the real code at boundary and random steps and judged in exact rational arithmetic (square roots by their '
            'squares, cosines at thirds and halves of a cycle). Zero warm-up steps with a factor that divides by them is out '
            'of scope.'),
    'C25': (TV,
            'Hosts that read, place, save and restore are a machine over the mesh of C14, checked for all small meshes. '
            'get_dataset and prepare_train_iter run as every host of random topologies (arrays are recorded when placed) and '
            'on 8 real devices through random histories of reading, peeking, saving, restoring into old and new iterators and '
            'resetting; TLC validates what every device was given, and judges what shards of training and evaluation data '
            'hold together. A save between peek and next is left out: there the position is that of the peeked batch.'),
    'C26': (TV,
            'Generated and concurrent uses of lazy arrays (all three classes, stand-alone and from real checkpoints); '
            'every recorded history of storage reads and values is judged by TLC.'),
    'C27': (TV,
            'Generated parameter trees, rules, options and gradients (with NaNs and restored step counts); TLC recomputes '
            'every step in 15-bit floating point of its own, so an error below about 0.1% of a step is not seen. The model '
            'run compares stacked, split and permuted layouts.'),
    'C28': (TV,
            'Upcycling and rescaled updates are a machine whose gradients are counts; real dense training, its checkpoint '
            'upcycled and MoeTrainer steps over meshes of 8 devices are validated step by step. Meshes and layouts of fake '
            'topologies, axes, rules, losses, gradient scaling and placement are generated and judged. A topology may be refused '
            'only if the devices of some host are no box of the mesh.'),
    'C29': (TV,
            'Checkpoints of generated architectures are written with TensorFlow and imported lazily, eagerly, by Checkpointer, by '
            'the Orbax manager and converted; each place is judged against the tensors spec/T5Import.tla puts there, and the '
            'model run proves that the layout is one-to-one. With a single layer, relative biases are taken for shared ones '
            '(the checkpoint cannot tell).'),
    'C30': (TV,
            'Transformations are restricted to those with integer arithmetic (scale, weight decay, momentum, schedules, accumulation, '
            'conditions, guards, masks, labels, chains), so that TLC computes every value exactly; parameters have equal elements. '
            'Floating-point optimizers are covered by C21 (structure, round trips, axes).'),
}
NA = {}
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
                       'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Specifications are TLA+ (spec/*.tla), checked with TLC; no hooks in /repo are needed.'}
with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

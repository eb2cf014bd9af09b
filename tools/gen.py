#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (claimed = listed in checks.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


p('C01', 'Scripts mean the same under case, whitespace and comment changes',
  'Changing the letter case of the language\'s keywords and option words, the amount and kind of whitespace between '
  'tokens (spaces, tabs, newlines, carriage returns), or adding comments and blank lines never changes what a script '
  'does: the same statements run in the same order with the same names, column positions, dimensions, limits, goals and '
  'inputs, giving the same output. Names, string contents and file locations keep their own spelling, and quoted strings '
  'keep embedded comment signs, separators and escaped quotes.',
  ['programs'], 'all well-formed scripts and all re-spellings of each',
  'The tests lex and parse a few fixed texts; the language promise is over every re-spelling of every script.',
  ['src/lang/lexer/lexer.hpp', 'src/lang/lexer/lexer_patterns.hpp', 'src/lang/happyml_script_init.hpp',
   'src/lang/parser/parser.hpp'],
  [('case-insensitive longest-match lexing with skipped whitespace and comments', 'src/lang/lexer/lexer.hpp findLongestMatch'),
   ('statement parsing', 'src/lang/parser/parser.hpp parseCodeBlock')],
  'metamorphic runtime monitor over executed scripts (stdout, datasets and results compared), ASan+UBSan build',
  'Exploration: generated scripts and re-spellings executed for real.')

p('C02', 'Malformed scripts and bad input are reported, never crash',
  'Any text given to the interpreter - truncated, mutated or arbitrary bytes - either runs or is rejected with a '
  'diagnostic; it never crashes, hangs, or reads or writes memory out of bounds, and a script that does not parse has no '
  'effect at all. A session that has rejected a script, or whose statement failed, still runs the next script exactly '
  'as a new session would.',
  ['programs', 'inputs'], 'all byte strings as scripts, all interactive line sequences',
  'The tests feed a handful of malformed scripts; totality over arbitrary text needs generated hostile input.',
  ['src/lang/lexer/lexer.hpp', 'src/lang/lexer/token.hpp', 'src/lang/parser/parser.hpp', 'src/lang/interpreter.hpp'],
  [('parse errors become results with messages', 'src/lang/parser/parser.hpp generateError'),
   ('interactive loop', 'src/lang/interpreter.hpp interactiveInterpret')],
  'ASan+UBSan fuzzing of the interpreter with a no-effect and session-survival oracle',
  'Exploration: mutated and random scripts under sanitizers, in isolated processes.')

p('C03', 'Statements run in order, stop at failure and at exit',
  'The statements of a script run one at a time in the order written; the first one that fails stops the script and '
  'its message is reported, and an exit statement ends the session without running anything after it. A script that '
  'does neither leaves the session open, in a file, a string and the interactive prompt alike, where a trailing backslash joins lines.',
  ['programs', 'histories'], 'all scripts and all sequences of scripts in one session',
  'Tests execute single statements; ordering, stop-on-failure and exit are facts about every sequence.',
  ['src/lang/statements/code_block_statement.hpp', 'src/lang/interpreter.hpp', 'src/lang/statements/exit_statement.hpp'],
  [('block execution', 'src/lang/statements/code_block_statement.hpp execute'),
   ('session loop', 'src/lang/interpreter.hpp interactiveInterpret')],
  'trace monitor: observed statement effects and output of generated sequences vs a reference trace',
  'Exploration: generated statement sequences through all three entry points.')

p('C04', 'Delimited text survives writing and reading',
  'Any table of fields written as delimited text with any delimiter reads back as exactly the same records and '
  'fields, including fields containing the delimiter, quotes, line breaks, backslashes, tabs, angle brackets and empty fields '
  '(only blanks surrounding a field are dropped), whether or not a header is skipped, and for one file or a folder of files; converting a '
  'tab-separated file to comma-separated form, or reordering its columns, preserves every field likewise, converting plain text keeps every word '
  'once and in order, and a record with an unclosed quote or a missing column is an error and not data.',
  ['inputs'], 'all tables of printable and control characters, all delimiters',
  'Tests use a few tiny files; quoting and escaping round trips are a claim over all field contents.',
  ['src/util/file_writer.hpp', 'src/util/file_reader.hpp', 'src/util/text_encoder_decoder.hpp', 'src/util/data_util.hpp',
   'src/util/dataset_utils.hpp'],
  [('record writer quoting', 'src/util/file_writer.hpp DelimitedTextFileWriter'),
   ('record reader state machine', 'src/util/file_reader.hpp DelimitedTextFileReader')],
  'round-trip oracle on recorded tables, ASan+UBSan build', 'Exploration: generated tables with hostile field contents.')

p('C05', 'Sorting a text file is a stable-content permutation; dedupe is exact',
  'Sorting a text file of any size produces exactly its non-blank lines in byte order: nothing lost, duplicated or altered, whatever '
  'the number of chunks it is split into and of files that may be open, in place or to another file, with the header line, when declared, kept '
  'first. Removing duplicates keeps exactly one of each run of equal lines. The source and all other files stay as they were, no temporary '
  'file remains, and a failure is reported.',
  ['inputs', 'configurations'], 'all files, all chunk sizes',
  'The test sorts a few lines that fit in one chunk; multi-chunk merges are not reached.',
  ['src/util/text_file_sorter.hpp', 'src/util/file_reader.hpp'],
  [('external merge sort', 'src/util/text_file_sorter.hpp FileSorter::sort')],
  'multiset and order oracle over observed output files, ASan+UBSan build', 'Exploration: generated files around chunk boundaries.')

p('C06', 'Creating a dataset keeps every distinct record, faithfully',
  'Creating a dataset from a delimited file stores each distinct combination of given values of its non-blank records exactly once, with '
  'the expected values of one of the records that have them, in columns as declared (name, type, purpose, dimensions), and each stored value '
  'decodes to what the source said: numbers up to storage precision, labels exactly, pixels in their declared place. The source file and all '
  'others are left unchanged, no temporary file remains, an existing dataset is not replaced, and what cannot be stored completely - '
  'malformed sources and declarations, a full disk - is reported and leaves nothing behind.',
  ['inputs', 'configurations'], 'all source files and all column declarations',
  'The tests create two tiny datasets and check that a file exists; fidelity over inputs is not examined.',
  ['src/lang/statements/create_dataset_statement.hpp', 'src/util/dataset_utils.hpp', 'src/util/data_util.hpp',
   'src/training_data/data_encoder.hpp', 'src/util/file_writer.hpp'],
  [('dataset creation pipeline', 'src/lang/statements/create_dataset_statement.hpp execute'),
   ('conversion to binary', 'src/util/dataset_utils.hpp create_binary_dataset_from_delimited_values')],
  'end-to-end model oracle: real statement run, stored rows decoded and matched as a set with the source',
  'Exploration: generated sources and column declarations.')

p('C07', 'A binary dataset file returns what was stored',
  'A binary dataset file reads back every row that was written, in order and by index, given and expected values '
  'each in its own column, with its column metadata - purpose, type, dimensions, name, label set and statistics - '
  'intact; a row is dropped only as a duplicate of an earlier one, where that is wanted. Read with other statistics, every column is rescaled to its own of them. '
  'What could not be written is reported.', ['inputs', 'histories', 'fault_sequences'], 'all column layouts, row contents and access orders',
  'Tests write no dataset with more than a couple of columns and never read rows out of order.',
  ['src/util/file_writer.hpp', 'src/util/file_reader.hpp', 'src/util/portable_bytes.hpp'],
  [('row and header layout', 'src/util/file_writer.hpp BinaryDatasetWriter'),
   ('row and header parsing', 'src/util/file_reader.hpp BinaryDatasetReader')],
  'write/read reference-model oracle, ASan+UBSan build', 'Exploration: generated layouts, rows, access orders.')

p('C08', 'A pass over a dataset visits every record exactly once',
  'After a restart, iterating a dataset - in memory, shuffled, split or backed by a file - yields exactly its records, '
  'each exactly once, and then reports the end; shuffling changes only the order, with given and expected values staying paired, '
  'and the two parts of a split dataset together hold each record exactly once, are the same every time, and are a fair sample of the whole. '
  'A file that is neither split nor shuffled is read in its order.',
  ['histories', 'inputs'], 'all datasets, sizes, split points and interleavings of next, restart and shuffle',
  'Tests walk one small dataset once; the guarantee is about every history of restarts and shuffles.',
  ['src/training_data/training_dataset.hpp', 'src/util/shuffler.hpp', 'src/training_data/training_pair.hpp'],
  [('record cursor and restart', 'src/training_data/training_dataset.hpp'), ('index permutation', 'src/util/shuffler.hpp')],
  'exactly-once event-log monitor over generated operation histories', 'Exploration: generated operation histories.')

p('C09', 'Damaged or missing data files are errors, not crashes or silence',
  'Opening or reading a data file - delimited, binary dataset, tokenizer or stored model - that is missing, truncated, '
  'or has implausible header values ends in a reported error or in a well-formed shorter result; it never crashes, '
  'hangs, exhausts memory or returns values that were not in the file.',
  ['fault_sequences', 'inputs'], 'all truncations and header corruptions of every file kind',
  'No test damages a file.', ['src/util/file_reader.hpp', 'src/util/data_util.hpp', 'src/ml/byte_pair_encoder.hpp',
                              'src/ml/neural_network.hpp'],
  [('header and row readers', 'src/util/file_reader.hpp BinaryDatasetReader')],
  'file-damage fault injection under ASan+UBSan with an error-or-prefix oracle',
  'Exploration: truncation at every offset of small files and header mutations.')

p('C10', 'Encoded column values decode back to the original',
  'Encoding a column value and decoding it returns the original: numbers, pixels and labels (every label distinct, '
  'ties resolved to the label encoded), and normalising or standardising a column and undoing it with the same stored '
  'statistics returns the original value up to precision, constant columns included. Normalised values lie within the '
  'unit interval for values within the recorded range. Images drawn as text show pixels of equal brightness alike and never a brighter one as darker.', ['inputs'],
  'all column values, label sets and value ranges', 'Tests cover no decoder and no constant column.',
  ['src/training_data/data_encoder.hpp', 'src/training_data/data_decoder.hpp', 'src/util/encoder_decoder_builder.hpp',
   'src/types/tensor_views/normalize_tensor_view.hpp', 'src/types/tensor_views/denormalize_tensor_view.hpp',
   'src/types/tensor_views/standardize_tensor_view.hpp', 'src/types/tensor_views/unstandardize_tensor_view.hpp'],
  [('encoders', 'src/training_data/data_encoder.hpp'), ('decoders', 'src/training_data/data_decoder.hpp')],
  'inverse-pair oracle under ASan+UBSan', 'Exploration: generated columns, ranges and labels.')

p('C11', 'Inputs are prepared for prediction exactly as for training',
  'A record given to a trained task, inline or from a dataset, reaches the model as exactly the numbers the same '
  'record had in training: same columns in the same places, same label codes, same scaling from the training data\'s '
  'statistics, same pixel layout and scale. Inline input is matched to columns by name, without regard to case or order, '
  'and a missing or wrongly sized value is an error.', ['inputs', 'configurations'],
  'all column declarations and all records', 'No test executes a task with inputs.',
  ['src/util/task_utils.hpp', 'src/training_data/data_encoder.hpp', 'src/util/encoder_decoder_builder.hpp',
   'src/lang/happyml_variant.hpp'],
  [('inline input encoding', 'src/util/task_utils.hpp execute_task_with_inputs'),
   ('dataset input encoding', 'src/util/task_utils.hpp execute_task_with_dataset')],
  'differential monitor: tensors reaching the model at prediction vs those stored for training',
  'Exploration: generated datasets, same records through both paths.')

p('C12', 'Every tensor operation equals its mathematical definition',
  'The value of every tensor operation at every coordinate - element-wise arithmetic, scaling, products, transposition, '
  'rotation, reshaping, flattening, slicing, padding, concatenation, convolution and correlation, broadcasting over channels, '
  'normalising - equals its textbook definition applied to its operands\' values, for all shapes, however operations are '
  'nested, and in whatever order or number of times values are read.', ['inputs', 'programs'],
  'all tensors of all shapes and all compositions', 'Tests check a few literal tensors per operation.',
  ['src/types/tensor_views', 'src/types/base_tensors.hpp', 'src/util/tensor_utils.hpp'],
  [('lazy views over immutable tensors', 'src/types/tensor_views')],
  'reference-model oracle on every element, random view towers, ASan+UBSan', 'Exploration: random shapes, values, nestings.')

p('C13', 'Reductions and statistics of a tensor equal their definitions',
  'Sums, products, minima, maxima, means, ranges, positions of extrema, norms, closeness tests and row or column '
  'extraction of any tensor equal their definitions over its values, per channel where asked, independently of how '
  'the work is split; incrementally gathered statistics equal those of the whole sequence.',
  ['inputs', 'schedules'], 'all tensors, shapes and insertion orders',
  'Tests use one or two small tensors.', ['src/types/base_tensors.hpp', 'src/util/tensor_stats.hpp',
                                       'src/util/tensor_utils.hpp'],
  [('reductions', 'src/types/base_tensors.hpp BaseTensor')],
  'reference-model oracle under ASan+UBSan', 'Exploration: random tensors incl. ties, extremes, one-element shapes.')

p('C14', 'Reduced-precision numbers round to nearest within their format',
  'Converting to a 16-bit or 8-bit number and back gives the closest representable value, is monotone and idempotent, '
  'keeps signs, zero, infinities and not-a-number, and arithmetic on 8-bit numbers gives the rounded exact result; '
  'tensors in reduced storage hold exactly the converted values, and pixels hold the nearest of 256 levels.',
  ['inputs'], 'all 65,536 and 256 codes, all floats', 'Tests convert a few constants.',
  ['src/types/half_float.hpp', 'src/types/quarter_float.hpp', 'src/types/tensor_impls/half_tensor.hpp',
   'src/types/tensor_impls/quarter_tensor.hpp', 'src/types/tensor_impls/pixel_tensor.hpp'],
  [('half conversion', 'src/types/half_float.hpp'), ('quarter conversion', 'src/types/quarter_float.hpp')],
  'exhaustive code sweep plus sampled floats against an exact rounding oracle, UBSan',
  'Exploration: every code and all neighbours; floats sampled.')

p('C15', 'A stored tensor loads back bit for bit',
  'A tensor of any shape and precision written to a file loads back with identical shape, precision and element bits, '
  'and loading a file that is missing, truncated or not a tensor of that kind is an error rather than a crash or made-up values.',
  ['inputs', 'fault_sequences'], 'all shapes, precisions, values and truncations', 'One test stores one tensor.',
  ['src/types/tensor_impls/tensor_allocators.hpp', 'src/types/tensor_impls/full_tensor.hpp', 'src/util/portable_bytes.hpp'],
  [('portable byte order', 'src/util/portable_bytes.hpp'), ('load and save', 'src/types/tensor_impls/full_tensor.hpp')],
  'round-trip oracle plus truncation faults under ASan+UBSan', 'Exploration.')

p('C16', 'Activations and losses follow their formulas and derivatives',
  'Each activation function and loss computes its documented formula at every point without overflow or invalid values for finite '
  'input, and each reported derivative points the way the loss really changes: it is the derivative of the formula up to a '
  'positive constant for that loss, zero where prediction equals truth, with softmax paired with categorical cross entropy. Softmax '
  'outputs are a probability distribution whatever the size of its inputs.', ['inputs'],
  'all finite tensors', 'Tests check tanh at a few values and no loss.',
  ['src/ml/activators', 'src/ml/losses', 'src/ml/activation.hpp', 'src/ml/loss.hpp'],
  [('activation functions', 'src/ml/activators'), ('loss functions', 'src/ml/losses')],
  'formula and finite-difference oracle under ASan+UBSan', 'Exploration: sampled and boundary inputs.')

p('C17', 'A training step follows the gradient of the loss',
  'With plain gradient descent, one training step on any network of dense, convolution, bias, activation, flatten, '
  'concatenation and normalisation layers changes every weight and bias in proportion to minus the true derivative of the '
  'loss with respect to it, averaged over the batch, whether examples are given singly or batched.',
  ['inputs', 'configurations'], 'all topologies, weights, examples and batch sizes',
  'Tests only check that small models eventually learn.',
  ['src/ml/layers', 'src/ml/neural_network_node.hpp', 'src/ml/neural_network.hpp', 'src/ml/optimizers/mbgd_optimizer.hpp'],
  [('back-propagation', 'src/ml/neural_network_node.hpp backward'), ('layer gradients', 'src/ml/layers')],
  'finite-difference oracle on real training steps, ASan+UBSan', 'Exploration: random topologies and data.')

p('C18', 'Each optimizer applies its own documented update rule',
  'For any history of gradients, each optimizer updates every weight and bias tensor by its own recurrence - sgd: w - rate*g; sgdm: '
  'm = 0.9m + rate*g, w - m; adam: m = 0.9m + 0.1g, v = 0.999v + 0.001g^2, w - rate*m/(sqrt(v)+1e-8), without bias correction - '
  'with separate state for every separately trained tensor (each filter of a convolution included), separate weight and bias '
  'rates, and state that starts at zero. Only the *_with_decaying_momentum variants change their rates, at most once per epoch and '
  'rate, from the second epoch on, to a value between 1e-5 and 0.1. A zero gradient on a fresh optimizer changes nothing.',
  ['histories', 'configurations'], 'all gradient sequences, parameters and hyperparameters',
  'No test examines an optimizer.', ['src/ml/optimizers', 'src/ml/optimizer_factory.hpp', 'src/ml/optimizer.hpp'],
  [('update rules', 'src/ml/optimizers')], 'independent recurrence replayed against recorded updates',
  'Exploration: random gradient histories.')

p('C19', 'The training loop keeps honest accounts and the best weights',
  'Training consumes each record exactly once per epoch in batches of the requested size (the last may be smaller), reports '
  'the average loss per record of each epoch to the stopping rule together with the time since training began, stops when its '
  'epoch, time, patience, degradation or zero-loss rule says so, and returns the model in the state its policy promises - the '
  'last state, or the one with the lowest reported loss - with a result (loss, number of epochs) that describes that state. '
  'A network can be trained again; a senseless batch size or a loss that is not a number is refused; no checkpoint is left '
  'behind; accuracy figures are the share of records right in every value of every output.',
  ['histories', 'configurations'], 'all datasets, batch sizes, limits and loss trajectories',
  'Tests train a few fixed models and look at predictions only.',
  ['src/ml/neural_network.hpp', 'src/ml/exit_strategy.hpp'],
  [('training loop', 'src/ml/neural_network.hpp train'), ('stopping rules', 'src/ml/exit_strategy.hpp')],
  'instrumented dataset and loss (event log) checked against an accounting model', 'Exploration.')

p('C20', 'A saved model loads back as the same model',
  'A model of any supported architecture saved to a folder and loaded again - for prediction or further training - gives '
  'identical predictions and keeps its structure and training settings; saving again, elsewhere or over an older copy, never '
  'leaves a mixture of two models, and not-allowed overwrites leave the old copy intact.',
  ['configurations', 'histories'], 'all architectures, precisions and save/load sequences',
  'One test saves and loads one model.', ['src/ml/neural_network.hpp', 'src/ml/neural_network_node.hpp',
                                          'src/ml/happyml_dsl.hpp', 'src/ml/layers'],
  [('configuration and knowledge files', 'src/ml/happyml_dsl.hpp loadNeuralNetwork')],
  'differential prediction oracle over generated architectures and save histories', 'Exploration.')

p('C21', 'Prediction is pure and repeatable',
  'A prediction depends only on the model\'s current weights and its input: repeating it, interleaving it with other predictions, '
  'or asking for it in or out of a batch of calls gives the same values, changes no weight, and disturbs neither inputs, other '
  'models, earlier results nor later training, and a refused prediction leaves no trace; training from the same weights with '
  'the same records in the same order and the same settings gives the same model.', ['histories', 'inputs'],
  'all models and all call sequences', 'Tests predict once after training.',
  ['src/ml/neural_network.hpp', 'src/ml/neural_network_node.hpp', 'src/ml/layers'],
  [('forward pass', 'src/ml/neural_network_node.hpp forward')],
  'repeatability monitor over generated call histories, ASan+UBSan', 'Exploration.')

p('C22', 'Byte pair encoding is lossless and survives storage',
  'Encoding any text with any trained tokenizer and decoding it returns the same text, with never more codes than '
  'characters and delimiters, with every merge decoding to the concatenation of its parts; a tokenizer saved and loaded '
  'encodes and decodes identically and reports the same size, even when loaded over another.', ['inputs', 'histories'],
  'all training corpora and all texts', 'Tests round-trip a few sentences.',
  ['src/ml/byte_pair_encoder.hpp'], [('merge learning, encode and decode', 'src/ml/byte_pair_encoder.hpp')],
  'round-trip oracle under ASan+UBSan', 'Exploration: random corpora, texts, UTF-8 and binary bytes.')

p('C23', 'Token, one-hot and positional encodings are exact',
  'Tokenisation, one-hot encoding and rotary position encoding place exactly one value per symbol at its own '
  'position, recover the symbols when decoded, and never touch memory outside the encoding for any character or code; the '
  'positional value of a dimension depends only on its position and number, and prefix lookup returns exactly the stored words with the prefix.',
  ['inputs'], 'all texts and code sequences', 'Tests encode short ASCII strings.',
  ['src/util/one_hot_encoder.hpp', 'src/util/text_embedder.hpp', 'src/ml/rotary_positional_embedding.hpp', 'src/types/trie.hpp'],
  [('one-hot', 'src/util/one_hot_encoder.hpp'), ('rotation', 'src/ml/rotary_positional_embedding.hpp')],
  'reference-model oracle under ASan+UBSan', 'Exploration.')

p('C24', 'Hyperparameter search returns the best candidate it evaluated',
  'The search evaluates only candidates drawn from the declared ranges, keeps the better part of them at each round, '
  'and returns the candidate with the best recorded score among those evaluated, within its resource limits.',
  ['configurations', 'schedules'], 'all search spaces, budgets and score landscapes', 'No test runs the search.',
  ['src/ml/hyperband'], [('elimination', 'src/ml/hyperband/hyperband.hpp'), ('sampling', 'src/ml/hyperband/hyperband_space.hpp')],
  'recorded evaluation log checked against a selection model', 'Exploration.')

p('C25', 'Create dataset, create task, execute task works end to end',
  'Creating a labelling task from a dataset always ends, in a task or in a reported failure. A task that was created can be executed on a '
  'dataset and on typed inputs, in the same session or a later one, and answers every record with one of the dataset\'s '
  'labels, the same for the same record each time and whichever way it is asked; the accuracy that was told when it was created is the '
  'accuracy of the task that was saved, whatever its goal. Creating a task that exists, or from missing or unusable data, is refused '
  'without damage, and what a failed creation leaves behind is never mistaken for a task.',
  ['programs', 'histories'], 'all label datasets, goals and execution histories', 'Tests never create a task.',
  ['src/util/task_utils.hpp', 'src/lang/statements/create_task_statement.hpp', 'src/lang/statements/execute_task_statement.hpp'],
  [('task creation', 'src/util/task_utils.hpp create_happyml_task')],
  'end-to-end monitor over generated datasets and scripts, ASan+UBSan build', 'Exploration: small datasets of numbers, words and images with one or two '
  'expected labels, learnable or not, with every goal, test data and execution history; a search that runs into the time limit of the check is not judged.')

p('C26', 'Work done at the same time has no data races and the results it has one after another',
  'Independent models, datasets, encoders, sorts and sessions used from several threads at once, one tensor read by several threads at once, '
  'the parallel evaluation of candidates and the statistics that are taken by several threads have no data race and give the results they give '
  'one after another. Whatever order candidates end in, the best of those evaluated is the one that is reported and returned.', ['schedules'],
  'all interleavings of independent training, prediction, saving, loading, dataset creation and tensor evaluation, and of candidate evaluations',
  'Tests are single threaded.', ['src/ml/hyperband/configuration_evaluator.hpp', 'src/ml/hyperband/hyperband.hpp', 'src/types/base_tensors.hpp',
                                  'src/util/tensor_stats.hpp', 'src/ml/neural_network.hpp'],
  [('parallel evaluation', 'src/ml/hyperband/hyperband.hpp run'), ('shared best candidate', 'src/ml/hyperband/configuration_evaluator.hpp evaluateConfiguration'),
   ('statistics by several threads', 'src/util/tensor_stats.hpp')],
  'ThreadSanitizer with injected delays at starts and after unlocking, sequential-equivalence oracle',
  'Exploration: stressed schedules of generated work with 2 to 12 threads; parallel algorithms run on instrumented threads instead of those of TBB.')

p('C27', 'Dropout drops at its rate in training, is neutral on average, and does nothing in predictions',
  'A dropout layer keeps the shape of its input. In training it zeroes elements at the rate it was given, differently from '
  'pass to pass, and scales what it keeps by one over the kept share, so that the average is that of the input; the error '
  'that goes back is masked and scaled exactly as the values were, so a step of a network with dropout is the gradient step '
  'of the network with that mask. Predictions are those of the same network without the layer. Rates outside 0 to 1 are '
  'refused.', ['inputs', 'histories'], 'all shapes, rates, positions in a network, and sequences of passes',
  'No test uses dropout.', ['src/ml/layers/dropout_layer.hpp', 'src/ml/happyml_dsl.hpp', 'src/ml/neural_network_node.hpp'],
  [('mask', 'DropoutLayer::forward'), ('backward', 'DropoutLayer::backward')],
  'mask inferred from observed passes and compared forward/backward; brute-force mask explanation of observed training steps',
  'Exploration over random layers and networks.')

p('C28', 'Printing a dataset shows what it holds',
  'Printing a dataset shows its first rows, as many as the limit asks for or all of them, in stored order under a header '
  'with the name of every column, and for every column of a row all of its values: as they were in the source when pretty '
  '(labels by name, numbers to three decimals in their original range, images as pictures), as stored when raw. Printing '
  'again shows the same, and nothing is changed by it.', ['inputs', 'configurations'],
  'all datasets, limits and sequences of prints', 'No test looks at what is printed.',
  ['src/util/pretty_print_row.hpp', 'src/lang/statements/print_statement.hpp', 'src/training_data/data_decoder.hpp'],
  [('rows are decoded and laid out', 'src/util/pretty_print_row.hpp pretty_print'),
   ('print statement', 'src/lang/statements/print_statement.hpp')],
  'monitor of printed output against an independent decoding of the stored rows, ASan+UBSan build',
  'Exploration: generated datasets printed in sequences of raw, pretty and limited prints.')

p('C29', 'Interrupted work leaves the old, the new, or something known to be incomplete',
  'When creating a dataset, creating a task or saving a model over an older one is cut off at any change of a file, even part-way through a '
  'write, then nothing partial is ever taken for the whole afterwards: a dataset that exists is complete, a task that executes gives one of '
  'its labels, a model that loads is entirely the old or entirely the new one, and anything else is reported as missing or as an '
  'error. Doing the same work again succeeds with the result it would have had, and other datasets are untouched.',
  ['crash points', 'histories'], 'all crash points between and within changes of files, all datasets, tasks and models',
  'No test interrupts anything.',
  ['src/lang/statements/create_dataset_statement.hpp', 'src/util/dataset_utils.hpp', 'src/util/task_utils.hpp', 'src/ml/neural_network.hpp'],
  [('dataset is written aside and renamed', 'src/lang/statements/create_dataset_statement.hpp'),
   ('task is known by what is written last', 'src/util/task_utils.hpp'),
   ('model replaces model', 'src/ml/neural_network.hpp saveWithOverwrite')],
  'process crash injected at interposed write/writev/rename/remove/unlinkat/mkdir calls, recovery oracle in a new process, ASan+UBSan build',
  'Exploration: random crash points, with part of the last write done, for generated datasets, small tasks and models; loss of what the kernel was already given is not modelled.')


p('C30', 'What cannot be computed is refused, and what is accepted computes in its declared shape',
  'A network definition that cannot be computed (a shape without values, kernels larger than their images, layers that '
  'change or combine shapes that do not fit, loose ends, no input or output) is an error when it is defined or built, and '
  'every other definition builds a network whose predictions and trainings end with finite values, each output in exactly '
  'the shape that was asked for. Values that do not fit the inputs or outputs of a network, in number or in shape, are '
  'refused by predicting, training and testing, and leave the network as it was. The networks that are made for a task '
  'suit whatever dataset they are made for. A model without a name is not saved in place of others.',
  ['inputs', 'configurations'], 'all network definitions, data shapes, model names and datasets',
  'Tests only define networks that work, and only give them data that fits.',
  ['src/ml/happyml_dsl.hpp', 'src/ml/neural_network.hpp', 'src/ml/neural_network_node.hpp', 'src/util/task_utils.hpp',
   'src/ml/hyperband/configuration_evaluator.hpp'],
  [('definitions are checked', 'src/ml/happyml_dsl.hpp addLayer, addOutputLayer, addEdge, build'),
   ('data is checked', 'src/ml/neural_network.hpp predict, train, test'),
   ('networks of tasks', 'src/util/task_utils.hpp build_neural_network_for_label, configuration_evaluator.hpp')],
  'independent shape calculus decides which generated definitions and data are sound; outcome, shapes and state observed, ASan+UBSan build',
  'Exploration: sound and flawed definitions and data in about equal parts; crashes, hangs and leaks of accepted ones count as violations.')


if __name__ == '__main__':
    checks = json.load(open(V + '/checks.json'))
    with open(V + '/properties.jsonl', 'w') as f:
        for x in P:
            f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'],
                                    quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'],
                                    anchors=dict(files=x['files'],
                                                 mechanism=[dict(name=a, where=b) for a, b in x['mech']]))) + '\n')
    m = dict(version=1, setup_cmd='python3 tools/setup.py',
             checks=[dict(property=x['id'], quick_cmd='python3 check.py ' + x['id'],
                          thorough_cmd='python3 check.py ' + x['id'] + ' --thorough', technique=x['technique'],
                          level='exploration', level_note=x['note']) for x in P if x['id'] in checks],
             not_applicable=[dict(property=x['id'], reason=x.get('na', 'not decided yet: its monitor is still being built'))
                             for x in P if x['id'] not in checks])
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    open(V + '/MANIFEST.json', 'a').write('\n')

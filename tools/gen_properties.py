#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

T='emlearn/trees.py'; TH='emlearn/eml_trees.h'; CG='emlearn/cgen.py'; CM='emlearn/common.py'

p('C01','Hard-voting tree classifiers predict the class of the source trees',
  'For a tree or forest classifier converted with majority voting, the class returned by the generated C code, inline or loadable, is the most voted class among the leaves the source model reaches for that input, ties going to the lowest class. The reported probabilities are the share of trees voting for each class.',
  ['programs','inputs'],
  'every tree shape, node order, feature/threshold/leaf assignment, forest composition (including single-leaf trees and forests that share leaves), number of classes, and every feature vector',
  'The tests convert a few forests fitted on random data and compare on the training points, so most shapes, node orders, forests mixing stumps with deeper trees, and inputs lying between training points are never produced.',
  [T,TH],[('tree flattening and child encoding',T+': flatten_tree, flatten_forest, encode_child'),('leaf de-duplication',T+': remove_duplicate_leaves'),('inline and loadable generators',T+': generate_c_inlined, generate_c_loadable'),('traversal and voting',TH+': eml_trees_predict_tree, eml_trees_predict')],
  ['generated <name>_predict and <name>_predict_proba','Wrapper.predict / predict_proba'])
p('C02','Soft-voting forests return averaged leaf proportions',
  'For a tree or forest classifier converted with soft voting, every reported class probability lies in [0,1] and equals the mean of the leaf class proportions of the source trees up to the quantisation step of the selected number of leaf bits. The predicted class has the highest reported probability, and the inline and loadable code report the same values.',
  ['programs','inputs','configurations'],
  'every leaf bit width offered, every tree/forest shape, any class proportions and class count, and every feature vector',
  'Tests use two bit widths on fitted forests with a loose comparison against scikit-learn; they never enumerate proportions, bit widths, class counts and shared leaves together.',
  [T,TH],[('leaf quantisation',T+': quantize_probabilities_into_byte'),('leaf table layout',T+': leaves_to_bytelist, generate_c_inlined, generate_c_loadable'),('accumulation and averaging',TH+': eml_trees_predict_proba')],
  ['generated <name>_predict_proba / _predict'])
p('C03','Tree regressors return the mean of the source leaf values',
  'For a tree or forest regressor, the generated code returns the arithmetic mean over the trees of the value of the leaf that the source model reaches, to single-precision accuracy, for large, tiny, negative, nearly equal and repeated leaf values alike. Inline and loadable code agree.',
  ['programs','inputs'],
  'every tree/forest shape, every assignment of leaf values from a set spanning magnitudes and near-duplicates, and every feature vector',
  'Tests fit a few regressors and compare with a tolerance; leaf values that differ by little, by many orders of magnitude, or repeat across trees are not sampled.',
  [T,TH,CG],[('leaf storage as bytes',T+': leaves_to_bytelist'),('leaf literals',CG+': constant'),('averaging',TH+': eml_trees_regress')],
  ['generated <name>_predict','eml_trees_regress / eml_trees_regress1'])
p('C04','Split decisions agree with the source model exactly at thresholds',
  'For every supported feature type, a converted tree takes the same branch as the source model for inputs below, equal to and above each split threshold, whether or not the threshold is itself representable in that type. A threshold that the feature type cannot represent faithfully is refused rather than silently changed.',
  ['inputs','configurations'],
  'every feature type, every threshold from a grid of integer, half-integer, tiny, huge and type-limit values of both signs, and every input next to that threshold or at a limit of the type',
  'Fitted thresholds are midpoints between training values and tests predict on those training values, so an input that equals a threshold, or a threshold beyond the printed precision, is never exercised.',
  [T,TH,CG],[('threshold literal',T+': generate_c_nodes, generate_c_inlined; '+CG+': constant'),('comparison',TH+': eml_trees_predict_tree')],
  ['generated <name>_predict'])
p('C05','The CSV export of a tree model describes the same model',
  'For every convertible tree or forest the CSV export succeeds, and its feature count, class count, leaf encoding, leaves, roots and nodes describe a model that, evaluated as documented, reaches the same leaves and yields the same outputs as the source model.',
  ['programs','configurations'],
  'every tree/forest shape including single-leaf trees, hard voting, soft voting with any number of classes, and regression',
  'Tests check that the export of one fitted forest parses; they do not evaluate the exported model, and use no single-leaf trees or wide soft-voting leaves.',
  [T],[('CSV serialisation',T+': Wrapper.save(format="csv")'),('relative child encoding',T+': encode_child')],['Wrapper.save(format="csv")'])
p('C06','Tree models are either converted faithfully or refused',
  'At any model size - features, classes, nodes, leaves, trees, node distance - and for every combination of method, feature type and leaf-bits setting, converting and saving a tree model either raises an error in Python or yields code that compiles and reproduces the source model. An error status is never reported as a class or a value.',
  ['configurations','programs'],
  'the full lattice of method x dtype x leaf_bits x estimator kind, and a ladder of sizes through and past each capacity limit',
  'Tests use small models and a few parameter combinations; capacity limits (signed 8/16-bit fields, fixed vote arrays) and nonsense bit widths are not approached.',
  [T,TH],[('argument validation',T+': Wrapper.__init__'),('field ranges',T+': assert_valid_child, encode_child; '+TH+': EmlTreesNode, EMTREES_MAX_CLASSES')],['emlearn.convert, Wrapper.save, Wrapper.predict'])
p('C07','Tree inference is memory safe and rejects wrong-sized inputs and outputs',
  'For any loadable tree model, calling class prediction, probability prediction or regression with a feature vector or output buffer of the wrong length returns the documented error and touches nothing outside the given buffers. With right lengths, inference reads only the given feature vector and the model, writes only the given output, and repeated or interleaved calls give the same result.',
  ['inputs','histories'],
  'every feature length and output length around the model size, for hard, soft and regression models, and every short interleaving of calls to several models',
  'Tests call the C API with a single wrong length, without a memory checker.',
  [TH],[('length preconditions',TH+': eml_trees_predict, eml_trees_predict_proba, eml_trees_regress')],['C API return values','AddressSanitizer on exact-size buffers'])
N='emlearn/net.py'; NH='emlearn/eml_net.h'; NT='emlearn/templates/net_float.jinja'
p('C08','Converted neural networks compute the source network function',
  'For a fully connected network the generated code, inline or loadable, computes the same outputs as the source model within single-precision tolerance, and its predicted class is the class of the source model (largest output, or threshold one half for a single output) whenever the outputs are not tied.',
  ['programs','inputs','configurations'],
  'every combination of depth, layer widths, activation per layer, weight values across magnitudes, scikit-learn and Keras front ends with every supported layer arrangement, and inputs from a grid that includes large values',
  'Tests fit a handful of networks of similar shape; narrow-wide-narrow layer orders, per-layer activation mixes, small or large weights and the layer-merging rules are not enumerated.',
  [N,NH,NT,CG],[('weight layout',N+': c_generate_layer_data'),('layer evaluation',NH+': eml_net_forward, eml_net_infer'),('inline template',NT),('Keras layer merging',N+': convert_keras')],['eml_net_regress, eml_net_predict, generated <name>_predict, Wrapper.predict'])
p('C09','Network class probabilities form a distribution that matches the prediction',
  'For every classifier network, the probability output is a vector over the classes with values in [0,1] summing to one that equals the source model probabilities, with a single-output model reported as complementary probabilities for class 0 and class 1. The predicted class is the one with the largest probability.',
  ['programs','inputs'],
  'networks with one to many outputs, logistic or softmax final activation, any weights, and inputs that drive outputs to the extremes',
  'Tests cover one binary logistic and one multi-class softmax case each, never a two-output softmax network nor saturated outputs.',
  [NH,N],[('probability output',NH+': eml_net_predict_proba, eml_net_outputs_proba, eml_net_softmax'),('host wrapper',N+': Wrapper')],['eml_net_predict_proba','Wrapper.predict_proba'])
p('C10','Network inference rejects malformed use and keeps no history',
  'Inference on a network with a wrong feature length, a wrong output length, missing buffers or parameters, undersized work buffers or too few layers returns an error and never touches memory outside the given buffers. The result for an input does not depend on which calls were made before, on this network or another.',
  ['histories','inputs','fault_sequences'],
  'every single and double defect of the network description and call arguments, and every call sequence up to a bounded depth over several networks and inputs',
  'Tests exercise a few valid calls; stale work-buffer contents, defective descriptions and interleaved models are not explored.',
  [NH],[('preconditions',NH+': eml_net_infer, eml_net_layer_forward, eml_net_predict_proba, eml_net_regress')],['C API return codes','AddressSanitizer'],
  [('activation buffers','scratch shared between calls',NH+': EmlNet.activations1/2')])
B='emlearn/bayes.py'; BH='emlearn/eml_bayes.h'; FX='emlearn/eml_fixedpoint.h'
p('C11','Gaussian Naive Bayes picks the class of highest posterior density',
  'For a converted Gaussian Naive Bayes model and an input within the fixed-point range, the predicted class is the one whose prior times the product of per-feature Gaussian densities is largest, whenever its lead exceeds the fixed-point error bound. This holds for any number of classes and features; a wrong feature count yields an error and inference is memory safe.',
  ['programs','inputs'],
  'every number of classes through and past the built-in limit, every assignment of means and deviations from a grid spanning tiny to large, and inputs on a grid including far-away values',
  'Tests fit a few models with 2-5 classes and check accuracy statistically.',
  [B,BH,FX],[('per-class log likelihood',BH+': eml_bayes_predict, eml_bayes_logpdf'),('model table',B+': generate_c, Wrapper')],['generated <name>_predict, Wrapper.predict'])
K='emlearn/neighbors.py'; KH='emlearn/eml_neighbors.h'
p('C12','Nearest-neighbour models behave as a growing list of labelled points',
  'After any sequence of adding items and predicting, a prediction is a majority label among the k items nearest to the input (by Euclidean distance rounded down to an integer), where the items are those given at creation followed by those accepted since. Adding beyond capacity or with a wrong feature count is rejected and changes nothing; prediction never alters the stored items. The check of the buffers that back a model accepts exactly the sizes that hold its capacity, however large.',
  ['histories','inputs'],
  'every sequence of add and predict operations up to a bounded depth, over colliding points, labels, every k and capacity',
  'Tests run one fixed add-then-predict script.',
  [KH],[('growth',KH+': eml_neighbors_add_item'),('search and vote',KH+': eml_neighbors_infer, eml_neighbors_find_nearest')],['eml_neighbors_predict'],
  [('items','n_items, data, labels',KH+': EmlNeighborsModel')])
p('C13','Nearest-neighbour distances and ordering are right over the full value range',
  'Distances are the Euclidean distance rounded down to an integer for any 16-bit feature values and any feature count, and sorting places every distance array in non-decreasing order keeping all items. A converted classifier predicts a majority label of the k training points nearest by that distance, whatever the class labels and sizes, or the conversion is refused.',
  ['inputs','configurations'],
  'all pairs of extreme and ordinary 16-bit values, all permutations and duplicates of distance arrays through the sort algorithm switch, and converted models over class counts and values across limits',
  'Tests use values near zero and a handful of points; large differences, more than ten classes and longer arrays are not reached.',
  [K,KH,'emlearn/eml_qsort.h'],[('distance and square root',KH+': eml_distance_euclidean_int16, eml_isqrt'),('sorting',KH+': eml_neighbors_sort_distances; emlearn/eml_qsort.h'),('conversion',K+': Wrapper, c_generate_neighbors')],['eml_distance_euclidean_int16, eml_neighbors_sort_distances, Wrapper.predict'])
D='emlearn/distance.py'; DH='emlearn/eml_distance.h'
p('C14','Elliptic envelope scores and decisions match the source model',
  'A converted elliptic envelope returns the squared Mahalanobis distance of the input within single-precision tolerance, its sample scores are the negated distances, and it flags an outlier exactly when the source model does: away from the boundary, and on it when the numbers are exact. A wrong feature count is reported as an error that cannot be mistaken for a decision.',
  ['programs','inputs'],
  'every feature count in range, precision matrices from a grid including tiny, large and correlated entries, and inputs on a grid around mean and boundary',
  'Tests fit two data sets and compare scores loosely on them.',
  [D,DH],[('distance',DH+': eml_mahalanobis_distance_squared'),('decision',DH+': eml_elliptic_envelope_predict'),('code generation',D+': generate_code, Wrapper')],['generated code, Wrapper.score_samples/predict/mahalanobis'])
M='emlearn/mixture.py'; MH='emlearn/eml_mixture.h'
p('C15','Gaussian mixtures reproduce source scores and responsibilities',
  'For Gaussian and Bayesian Gaussian mixtures of every covariance structure, the converted model returns the source model log-likelihood, per-component responsibilities (values in [0,1] summing to one) and most likely component, within single-precision tolerance. A wrong feature count is reported as a negative error status. The helpers for the extremes, the dot product and the log of the sum of exponentials of an array follow their definitions.',
  ['programs','inputs','configurations'],
  'every covariance type, number of components and features in range, parameter scale, and inputs including points far from all components',
  'Tests fit a few mixtures on one data set; different component counts, scales, covariance types and far-away inputs are not crossed.',
  [M,MH],[('log density',MH+': eml_mixture_predict_log_proba'),('normalisation',MH+': eml_logsumexp, eml_mixture_score, eml_mixture_predict_proba'),('covariance expansion',M+': convert_to_full, get_log_weights')],['generated <name>_score/_predict_proba, Wrapper.score_samples/predict_proba/predict'])
p('C16','Converted models stay independent of each other',
  'Each converted model object keeps answering for its own source model regardless of which other models are converted, saved, used or discarded, or further training of the source model, before, between or after, in one process or several sharing a working directory. Predicting does not change the model, its saved code or the caller state.',
  ['histories','schedules'],
  'every interleaving up to a bounded length of convert / predict / save operations over several models of every kind, in one process and in two processes',
  'Tests convert one model, predict and drop it before the next; no test holds two live models of the same kind.',
  [CM,T,N,B,K,D,M],[('host binary building',CM+': build_classifier, CompiledClassifier'),('lazy building',T+': Wrapper._build_classifier')],['Wrapper.predict and friends'],
  [('host binary','file the model runs',CM+': CompiledClassifier.bin_path')])
p('C17','The Python wrapper transports features and results faithfully',
  'Predictions made from Python equal what the generated C code returns for the same values, one result per row in row order, for any number of rows, any number of features the model accepts and any finite feature magnitude, to single precision. Nothing is dropped, split, truncated or left uninitialised.',
  ['inputs'],
  'every row count and feature count through and past the line and value buffer limits, and feature/result values spanning tiny to huge magnitudes and long text forms',
  'Tests use up to a few dozen features of ordinary magnitude; buffer boundaries and small magnitudes are not reached.',
  [CM,'emlearn/eml_test.h',M],[('serialisation',CM+': run_classifier'),('parsing',"emlearn/eml_test.h: eml_test_read_csv, eml_test_parse_csv_line"),('result parsing',CM+': CompiledClassifier.predict_proba')],['Wrapper.predict, predict_proba'])
p('C18','Every conversion option combination is honoured or refused',
  'For each supported estimator type and every combination of conversion options, conversion either raises an error or gives a model whose predictions agree with the source model, and the code it saves is the one it evaluates. Unsupported estimators and options are refused by name.',
  ['configurations'],
  'the full product of estimator types with method, dtype, return type and save options (valid and invalid)',
  'Tests use the default and one alternative per estimator.',
  ['emlearn/convert.py',T,N,B,K,D,M],[('dispatch','emlearn/convert.py: convert'),('per-model validation','Wrapper constructors')],['emlearn.convert, Wrapper.save, Wrapper.predict'])
p('C19','Names are accepted exactly when they are usable C identifiers',
  'A model name is accepted by the code generators exactly when it is a valid C identifier that is not a C keyword, every generator applies this rule to the name (or the name derived from the file), and code generated with an accepted name compiles with its public symbols starting with that name.',
  ['inputs'],
  'all strings up to a small length over an alphabet covering letters, digits, underscore, separators, whitespace, newline, non-ASCII letters, plus every C keyword and near-keyword',
  'Tests check a handful of names against one generator.',
  [CG,'emlearn/creserved.py',T,N,B,K,D,M],[('identifier check',CG+': assert_valid_identifier, VALID_IDENTIFIER_REGEX'),('reserved words','emlearn/creserved.py')],['Wrapper.save(name=...)','cgen.assert_valid_identifier'])
p('C20','Generated literals and arrays reproduce the Python values in C',
  'A number or array emitted as C source is valid C and, compiled, has the value of the Python number rounded to the declared type, in the given order and count; this holds for every magnitude and sign, for integer, floating and fixed-point types. Values that the type cannot hold are refused or produce code that does not compile rather than silently wrong data.',
  ['inputs','configurations'],
  'numbers across all magnitudes, signs and representations, all declared types, arrays of every small length, struct and constant declarations with every modifier',
  'Tests compare a few strings with expected text.',
  [CG,'emlearn/fixedpoint.py'],[('literals',CG+': constant, array_declare, constant_declare, struct_declare, array_declare_fixedpoint')],['compiled C values'])
AH='emlearn/eml_array.h'
p('C21','Array containers behave as a bounds-checked matrix',
  'Any sequence of initialise, fill, sum, element access, row shift and row copy operations on arrays leaves exactly the contents a plain matrix would have, with element positions unique and inside the given buffer. Requests that do not fit, or mix incompatible arrays, return an error and change nothing.',
  ['histories','inputs'],
  'every operation sequence up to a bounded depth over all small array shapes, element sizes, shifts, starts and deliberately misfitting arguments',
  'Tests do a few operations on one shape.',
  [AH],[('layout',AH+': eml_array_data_2d'),('shift and copy',AH+': eml_array_shift_rows, eml_array_copy_rows'),('preconditions',AH+': eml_array_init_full')],['C API'],[('data','caller buffer',AH+': EmlArray')])
CH='emlearn/eml_csv.h'
p('C22','CSV written is read back identically',
  'A table written with the CSV writer is read back with the same header names, the same number of rows and the same values to the written precision, through any read buffer large enough for the longest line, and reading ends cleanly at the end of the data with or without a final newline. A row of the wrong width is an error for both writer and reader.',
  ['inputs','histories'],
  'every small table (columns, rows, name lengths, value widths), every buffer length from too small to larger than the file, every legal split of reads',
  'Tests round-trip one table with one large buffer.',
  [CH,'emlearn/eml_fileio.h'],[('writer',CH+': eml_csv_writer_write_header, eml_csv_writer_write_data'),('reader',CH+': eml_csv_reader_read_header, eml_csv_reader_read_data')],['reader/writer API over an in-memory stream and files'],
  [('stream_location','offset of the next row',CH+': EmlCsvReader')])
p('C23','CSV input and output faults are reported, never absorbed',
  'If a read, write or seek of the underlying stream fails or is incomplete, or a line or value does not fit the buffers, the operation that met it reports an error; it never reports success with missing or altered data and never touches memory outside the given buffers.',
  ['fault_sequences','inputs'],
  'every placement of one or two stream faults (error, short transfer, end of data) among the stream operations of a read or write history, and all buffer and column capacity shortfalls',
  'Tests never inject stream faults.',
  [CH,'emlearn/eml_io.h'],[('stream callbacks','emlearn/eml_io.h'),('error returns',CH)],['API return codes under a fault-injecting stream, AddressSanitizer'])
IH='emlearn/eml_iir.h'
p('C24','IIR filtering equals the reference difference equation',
  'Filtering a signal through any cascade gives the output of the mathematical second-order-section recursion within single-precision tolerance, independent of how the stream is chunked and of other filters running alongside. Filter descriptions of inconsistent size are rejected, in C and from Python.',
  ['histories','inputs','configurations'],
  'all short signals over a small alphabet, cascades of one to several stages with coefficients from a grid, every chunking and interleaving of two filters, every misfitting size',
  'Tests filter a few scipy designs in one go.',
  [IH,'bindings/eml_signal.cpp'],[('biquad',IH+': eml_biquad_tdf2, eml_iir_filter'),('checks',IH+': eml_iir_check'),('binding','bindings/eml_signal.cpp')],['eml_iir_filter, eml_signal.iirfilter'],[('states','per stage delay values',IH+': EmlIIR')])
FH='emlearn/eml_fft.h'
p('C25','The FFT equals the discrete Fourier transform',
  'For every power-of-two length the in-place transform equals the discrete Fourier transform of its complex input within single-precision tolerance; any other length, or a table of another length, is rejected and leaves the data unchanged. The Python interface agrees.',
  ['inputs'],
  'all lengths up to a bound (power of two and not), every basis vector in real and imaginary part (which by linearity determines the transform), all small-alphabet vectors at short lengths, every table/length mismatch',
  'Tests compare one random vector at a few lengths.',
  [FH,'bindings/eml_audio.cpp'],[('transform',FH+': eml_fft_forward, reverse_bits'),('tables',FH+': eml_fft_fill')],['eml_fft_forward, eml_audio.rfft'])
AU='emlearn/eml_audio.h'
p('C26','Mel spectra equal the triangular filterbank of the power spectrum',
  'For every valid parameter set the mel reduction equals the weighted sum with HTK triangular filters of the input spectrum, and the one-call mel spectrogram equals window, transform, power and mel reduction in sequence. Parameter sets whose filters do not fit the spectrum or buffers return an error, and no call reads or writes outside the given buffers.',
  ['configurations','inputs'],
  'the product of FFT size, mel count, sample rate and frequency limits including ones beyond Nyquist, with every basis spectrum, and every buffer length around the required one',
  'Tests compare one parameter set with librosa loosely.',
  [AU,'emlearn/eml_vector.h','bindings/eml_audio.cpp'],[('filterbank',AU+': eml_audio_melspec, eml_audio_mel_center, eml_audio_mel_bin'),('pipeline',AU+': eml_audio_melspectrogram, eml_audio_power_spectrogram'),('vector helpers','emlearn/eml_vector.h')],['C API, eml_audio.melfilter/melspectrogram'])
SG='emlearn/signal.py'
p('C27','Sparse filterbanks equal their dense matrix',
  'For every filterbank matrix, reducing an input through its sparse form - in Python, through the C function, and through the serialised C tables - equals the dense matrix product. Filters with gaps or without any non-zero coefficient are handled or refused, never silently misaligned.',
  ['inputs'],
  'all small filterbank matrices over a value alphabet including zero rows, interior zeros, overlapping and edge-touching bands, and all basis inputs',
  'Tests use one mel filterbank, whose rows are contiguous and never empty.',
  [SG,AU,'bindings/eml_audio.cpp'],[('sparse encoding',SG+': sparse_filterbank'),('Python reduction',SG+': sparse_filterbank_reduce'),('C reduction',AU+': eml_sparse_filterbank'),('serialisation',SG+': sparse_filterbank_serialize')],['signal.*, eml_audio.sparse_filterbank, compiled tables'])
TW='emlearn/tools/window_function.py'; TM='emlearn/tools/mel_filterbank.py'
p('C28','Table generator tools emit compilable tables with the requested values',
  'For every accepted option set the window and mel-filterbank tools write a header that compiles and whose tables and constants have exactly the requested lengths and the reference values to single precision, whatever the line-wrap width, name and output path.',
  ['configurations'],
  'the product of window type / band count, length, symmetry, normalisation, frequency limits, line width from very small up, name and output options',
  'Tests generate a few windows at the default width.',
  [TW,TM,CG],[('wrapping',TW+': window_function; '+TM+': mel_filterbank'),('options',TW+': parse; '+TM+': parse')],['generated headers compiled and read back'])
p('C29','Fixed-point arithmetic stays within its stated error',
  'Conversion between floating and fixed point, multiplication, division and base-2 logarithm of in-range Q16.16 values give the real result within the error of the format (division the nearest value), and the Python and C conversions agree for every format and value. No in-range operand causes a crash or a value of the wrong sign.',
  ['inputs'],
  'all pairs over a dense operand grid including the limits of the format and all values around powers of two',
  'Tests convert a few values and compare.',
  [FX,'emlearn/fixedpoint.py',BH],[('C operations',FX+': EML_Q16_*, eml_q16_mul, eml_q16_div'),('Python conversion','emlearn/fixedpoint.py'),('logarithm',BH+': eml_bayes_log2fix')],['C and Python functions'])
Q='emlearn/preprocessing/quantizer.py'; QH='emlearn/eml_quantizer.h'
p('C30','Feature quantisation is saturating, monotone and invertible',
  'Quantising features, in Python and in C, is monotone, maps values beyond the configured range to the range limits, keeps shape and order, and the inverse recovers in-range values within one quantisation step. The C version reports exactly how many values saturated at each side, rejects length mismatches, and agrees with the Python version for 16-bit output.',
  ['inputs','configurations'],
  'every supported output type, range option and input dtype, with values at, around and far beyond each limit',
  'Tests check one dtype on random data.',
  [Q,QH],[('transform',Q+': Quantizer.fit/transform/inverse_transform'),('C quantiser',QH)],['Quantizer API, eml_quantizer_* C API'])
PA='emlearn/evaluate/pareto.py'
p('C31','The Pareto front is exactly the set of non-dominated results',
  'The Pareto front returned for a results table contains exactly the rows that no other row dominates in cost and performance, in original order with original columns, restricted to rows meeting the minimum performance when one is given. The plot of it shows every result and the front (for each group its part of the front, or the whole front in each). The input table is not modified.',
  ['inputs','configurations'],
  'all tables up to a bounded number of rows over a small grid of costs and scores (with ties and duplicates), both score directions, every performance cut, any row index; plots over grouping columns of texts and numbers with every option',
  'There is no test of the Pareto selection.',
  [PA],[('selection',PA+': is_pareto_efficient_simple, find_pareto_front')],['find_pareto_front'])
ET='emlearn/evaluate/trees.py'; ES='emlearn/evaluate/size.py'
p('C32','Model and program size metrics count what is really there',
  'The reported number of decision nodes, leaves, trees, bytes, depth statistics and compute cost of a tree model equal what the model contains or evaluates once converted; node, leaf, tree and byte counts are the same when asked for the source model and for the converted one. The program size reported for a platform is the total of its code and data sections in flash (.text, .data, .rodata) and of its variables in RAM (.data, .bss).',
  ['programs','inputs'],
  'every small tree/forest shape and leaf assignment, all voting modes, all evaluation inputs on a grid, and all section combinations of a size listing',
  'Tests check that metrics run and are positive on one model.',
  [ET,ES],[('tree metrics',ET),('size parsing',ES+': parse_binutils_size_a_output, run_binutils_size')],['evaluate.trees.*, evaluate.size.*'])
p('C33','Headers are self-contained and combinable in any order',
  'Every public header compiles on its own, twice, and after or before any other header, as C99 and as C++ where it is meant for C++, without warnings as errors for undeclared or redefined symbols. Enabling logging, tracing or debug options changes neither results nor validity, log entries are lines of an event name and key=value pairs, errors are reported with their own code, and each error code maps to its own description.',
  ['configurations'],
  'every header alone, every ordered pair of headers, each language mode, every combination of logging/trace/debug options, every error code including invalid ones',
  'The test program includes the headers once in one order with one configuration.',
  ['emlearn/*.h'],[('include guards','emlearn/*.h'),('logging macros','emlearn/eml_log.h'),('error strings','emlearn/eml_common.h: eml_error_strs')],['compiler results, program output'])
p('C34','Arduino installation delivers a complete library or fails cleanly',
  'Installing as an Arduino library gives a library directory holding every public header and the version file with the content of the source, replaces outdated files when updating, never touches other files in the library directory, and refuses to overwrite an existing installation unless updating is requested.',
  ['histories','configurations'],
  'every initial state of the target (absent, parent absent, empty, partial, outdated, foreign files) with every sequence of install and update operations up to a bounded depth',
  'The Arduino test needs the Arduino tools and is skipped.',
  ['emlearn/arduino/install.py','emlearn/utils/fileutils.py'],[('installation','emlearn/arduino/install.py: install_arduino_library'),('directories','emlearn/utils/fileutils.py')],['directory contents'])
SR='platform_examples/zephyr/motion_recognition/src/sensor_reader.c'
p('C35','The sensor chunk reader delivers intact windows and counts its errors',
  'Whatever the interleaving of the reader thread with the consumer and whatever sensor or queue errors occur, every chunk that the consumer takes before the next window completes holds exactly the consecutive samples of one window in channel order. Each failed fetch, channel read and queue put is counted exactly once.',
  ['schedules','fault_sequences'],
  'every interleaving of reader steps with consumer receive, use and release steps, and every placement of sensor and queue faults, for small windows and channel counts',
  'The example is only built for hardware; nothing runs it.',
  [SR],[('reader task',SR+': sensor_chunk_reader_task')],['messages on the queue, error counters'],[('read_samples_index, output_buffer','accumulation and hand-over',SR)])
VH='emlearn/eml_vector.h'
p('C36','Vector, window and benchmark helpers follow their definitions',
  'Setting a vector into another copies the whole source to the given position when it fits, and otherwise returns an error and changes nothing. Filling, viewing, the mean and the in-place Hann window (which leaves a single value as it is) give the values of their definitions for every length. The benchmark generator fills any number of values with the full-period Park-Miller sequence from its fixed seed, the same every time.',
  ['inputs','histories'],
  'every source length, destination length and position (incl. the limits of int), every short vector over an alphabet, every window length in a range, every state of the generator',
  'Tests do not cover these helpers beyond one vector.',
  ['emlearn/eml_vector.h','emlearn/eml_benchmark.h'],[('copy and view',VH+': eml_vector_set, eml_vector_view'),('window',VH+': eml_signal_hann_apply'),('generator','emlearn/eml_benchmark.h: eml_benchmark_fill')],['eml_vector_set','eml_benchmark_fill'],
  [('data, length','a vector',VH+': EmlVector')])
p('C37','Generated models can be combined in one program',
  'The code saved for any set of converted models under different names (none of them another one followed by an underscore and more) compiles together in one C99 or C++ program, in any order, and each model answers exactly as it does alone, whatever calls of the other models come before and between.',
  ['histories','configurations'],
  'every ordered pair of models of all kinds and generators, under adversarial pairs of names, and every sequence of calls to a bounded depth over both models and several inputs; programs of all models',
  'Tests compile one model per program.',
  ['emlearn/convert.py','emlearn/trees.py','emlearn/net.py'],[('names of generated code','emlearn/cgen.py: identifier'),('generators','emlearn/trees.py, emlearn/net.py, emlearn/bayes.py, emlearn/mixture.py, emlearn/distance.py, emlearn/neighbors.py')],['save(name=...)','answers of the compiled models'],
  [('generated arrays and functions','one set per name','emlearn/cgen.py')])
p('C38','Inference and signal processing can be interrupted by other calls',
  'When a call of the library or of generated code is interrupted at any point by another one (an interrupt handler or another thread), each gives the same answer as when it runs alone, as long as the two share no buffers, streams or changing models. Tree, Bayes, mixture, envelope and nearest-neighbour models and FFT tables are only read by predictions, so one of these may be used by both; a network holds its activations and is for one user at a time.',
  ['schedules'],
  'every pair of calls over all kinds of models and signal functions, and every schedule of the two with a bounded number of preemptions at basic blocks and memory accesses',
  'Tests run one call at a time.',
  ['emlearn/eml_trees.h',KH,'emlearn/eml_net.h','emlearn/eml_csv.h','emlearn/eml_audio.h'],[('votes of neighbours',KH+': eml_neighbors_find_nearest'),('tree inference','emlearn/eml_trees.h: eml_trees_predict'),('audio pipeline','emlearn/eml_audio.h: eml_audio_melspectrogram')],['results of each call'],
  [('temporary values of a call','on its stack or in buffers of the caller','emlearn/*.h')])
p('C39','A program compiled on the host is the one that was asked for',
  'The executable that compile_executable returns is the C program in the given file as it is at that moment, with headers found in the given include directories in the given order and the math library available, at the given name in the given output directory, which is created if needed. A missing source, missing header, compile or link error raises an error. Earlier executables, the sources and the list of include directories stay as they were.',
  ['histories','configurations'],
  'every history, to a depth, of edits of sources and headers (with file times that do not tell), broken and missing files, deleted output directories, and compilations over sources with equal names, output places, names, include orders, relative and absolute paths',
  'Tests compile one file once.',
  ['emlearn/common.py'],[('host compilation','emlearn/common.py: compile_executable')],['output and status of every executable'])
p('C40','Structured log entries are complete lines in the documented format',
  'With logging enabled, an entry is the event name, then " key=value" for each value added in order, then a newline: strings unchanged, integers in decimal over the full range of int, booleans (any non-zero expression is true) as true or false, floating-point numbers with four decimals, arrays as [a,b,c] in the given format, empty ones as []. Entries go to standard error, or to the output that the program chooses; each argument of a single value is evaluated once, and the macros are usable as single statements. By default logging is off and writes nothing.',
  ['histories','configurations'],
  'every sequence of values to a depth over an alphabet of every kind of value, every number of a grid, every array length, every order with the other headers, several compilers and language standards, default, enabled, disabled and redirected output',
  'The C tests print one log entry and nobody reads it.',
  ['emlearn/eml_log.h'],[('entries','emlearn/eml_log.h: EML_LOG_BEGIN, EML_LOG_ADD and its variants, EML_LOG_END'),('arrays','emlearn/eml_log.h: EML_LOG_PRINT_ARRAY')],['text that reaches the output'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        f.write(json.dumps(x)+'\n')
print(len(P))

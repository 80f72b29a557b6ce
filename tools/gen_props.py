#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one place to keep the text)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Datasets survive writing, reading and format conversion unchanged",
 "Writing any sequence of labelled sparse examples to a file in a supported format and reading it back, or converting a file from one supported format to another, yields the same number of examples in the same order, each with the same label and the same set of (feature index, value) pairs, values bit-identical in the binary format and equal to six significant digits in the text formats. "
 "Zero-feature examples, large indexes, repeated openings and rewinds of the same file do not change the result, text files may end their lines in LF or CRLF and leave the last line unterminated, examples are delivered with their features in ascending index order whatever order a file lists them in, copying an example onto a fresh or used one reproduces it and leaves the original as it was, and in the dense csv format an absent feature and a zero-valued feature are the same thing.",
 ["inputs", "configurations"], "all datasets (labels, index sets, values, row counts), all ordered pairs of formats {svm, bin, csv}, reading repeatedly or after rewind",
 "The repository's tests round-trip one small file per format; they do not touch empty rows, wide indexes, values of extreme magnitude, conversions between formats or second passes.",
 ["src/sol/pario/svm_writer.cc", "src/sol/pario/svm_reader.cc", "src/sol/pario/binary_writer.cc", "src/sol/pario/binary_reader.cc", "src/sol/pario/csv_writer.cc", "src/sol/pario/csv_reader.cc", "src/sol/tools.cc", "src/sol/pario/data_point.cc"],
 [("per-format writers and readers", "src/sol/pario/*_writer.cc, *_reader.cc"), ("convert loop", "src/sol/tools.cc:convert")],
 observe=["DataWriter::Write/DataReader::Next", "sol_convert_data"])

prop("C02", "Feature-index compression is lossless and length-exact",
 "Compressing any non-decreasing sequence of unsigned 16-, 32- or 64-bit indexes and decompressing the bytes returns exactly the original sequence, for every length and every gap size including the extremes of the type. "
 "Decompressing arbitrary bytes never reads outside the given buffer, always terminates and is free of undefined behaviour.",
 ["inputs"], "all sorted index sequences over 16/32/64-bit types; all byte strings for the decoder",
 "The unit test uses one fixed-seed batch of random sequences; gap sizes at each 7-bit boundary, type maxima and hostile byte strings are not sampled.",
 ["include/sol/pario/compress.h"], [("delta + variable-length coding", "include/sol/pario/compress.h")],
 observe=["comp_index/decomp_index"])

prop("C03", "The data iterator delivers every example exactly once, in order",
 "Iterating over one or more data sources delivers, for every pass requested, every example of every source exactly once, in source order and file order, with label and features intact, whatever the mini-batch size, the buffer size, the number of passes and the timing between the loading thread and the consumer. "
 "No batch exceeds the configured size, the stream ends with an end-of-data indication, and features larger than a source's declared width never change the examples of another source.",
 ["schedules", "inputs", "configurations"], "all thread interleavings of loader and consumer; all batch sizes, buffer sizes, pass counts and source lists",
 "The unit test iterates one file with one configuration and one schedule.",
 ["src/sol/pario/data_iter.cc", "src/sol/pario/data_read_task.cc", "include/sol/pario/mini_batch.h", "include/sol/util/block_queue.h", "include/sol/util/thread_task.h"],
 [("free-batch and full-batch queues between the read task and the consumer", "src/sol/pario/data_iter.cc"), ("read task", "src/sol/pario/data_read_task.cc")],
 state=[("mini_batch_buf_", "queue of loaded batches", "include/sol/pario/data_iter.h"), ("mini_batch_factory_", "queue of free batches", "include/sol/pario/data_iter.h")],
 observe=["DataIter::Next"])

prop("C04", "Background loading is race-free and shuts down cleanly at any point",
 "While data is loaded in the background there is no data race between the loading threads and the consumer, and every operation completes: no schedule deadlocks loading, training or prediction. "
 "Abandoning iteration at any point, including before the first batch, with several sources pending or when a source fails to open, stops the loading threads and releases all memory and threads.",
 ["schedules", "programs", "fault_sequences"], "all interleavings; all points at which the consumer stops; all source lists incl. unreadable ones",
 "Tests always consume everything on one schedule, without a race detector or leak checker.",
 ["src/sol/pario/data_iter.cc", "src/sol/pario/data_read_task.cc", "include/sol/util/block_queue.h", "include/sol/util/monitor.h", "include/sol/util/mutex.h", "include/sol/util/thread.h", "include/sol/util/thread_task.h"],
 [("stop flags, queue draining and join in the destructor", "src/sol/pario/data_iter.cc"), ("mutex/condition wrappers", "include/sol/util/monitor.h")],
 observe=["DataIter construction/destruction", "ThreadSanitizer reports", "LeakSanitizer reports", "thread count"])

prop("C05", "The blocking queue is a bounded, lossless, linearizable FIFO",
 "For any number of concurrent producers and consumers the blocking queue delivers every enqueued element exactly once, in an order consistent with first-in first-out (its history is linearizable to a FIFO of the configured capacity), and never holds more than its capacity. "
 "An enqueue blocks exactly while the queue is full and a dequeue exactly while it is empty, bulk transfers move contiguous runs and report how many elements were moved, and no waiter is left asleep when it could proceed.",
 ["schedules", "histories"], "all interleavings of any mix of single and bulk, blocking and non-blocking operations on any capacity",
 "No test uses the queue concurrently except through one iterator run.",
 ["include/sol/util/block_queue.h", "include/sol/util/monitor.h"], [("mutex plus two conditions around a ring buffer", "include/sol/util/block_queue.h")],
 observe=["BlockQueue Enqueue/Dequeue call and return events"])

prop("C06", "Malformed data files never corrupt memory, crash or hang the reader",
 "Whatever bytes a data file contains, in any supported format, reading it terminates without crashing, without undefined behaviour, without reading or writing outside its buffers and without allocating far beyond the file's size, ending with either end-of-file or an error status. "
 "All well-formed examples before the first malformed one are delivered exactly as written, the malformed one is not delivered as if it were valid data, and reading an intact file afterwards works.",
 ["inputs", "fault_sequences"], "all byte strings, in particular truncations, bit flips and splices of valid files, in every format",
 "Tests read only well-formed files.",
 ["src/sol/pario/svm_reader.cc", "src/sol/pario/csv_reader.cc", "src/sol/pario/binary_reader.cc", "src/sol/pario/file_reader.cc", "include/sol/pario/numeric_parser.h", "include/sol/pario/compress.h", "src/sol/pario/data_reader.cc"],
 [("status codes of the readers", "src/sol/pario/*_reader.cc"), ("line buffer growth", "src/sol/pario/file_reader.cc")],
 observe=["DataReader::Next status", "AddressSanitizer/UBSan reports"])

prop("C07", "Numbers in text data are parsed to the value written",
 "A decimal number in a text data file (optional sign, integer part, fraction, exponent) is read as the floating-point value it denotes, to within single-precision rounding, saturating to zero or infinity only when the value is outside the representable range, and an integer label or index is read exactly or rejected when it does not fit; one spelled with a fraction or an exponent is read as the integer it denotes or rejected, never read as another number. "
 "Text that does not start with a number is rejected rather than read as some value, and parsing stops at the first character that is not part of the number.",
 ["inputs"], "all decimal spellings: digit counts, exponents, signs, separators; all integer widths",
 "Tests parse a handful of short literals.",
 ["include/sol/pario/numeric_parser.h", "src/sol/pario/svm_reader.cc", "src/sol/pario/csv_reader.cc"],
 [("hand-written digit/exponent scanners", "include/sol/pario/numeric_parser.h")],
 observe=["values delivered by the text readers"])

prop("C08", "A saved model restores to an equivalent model",
 "For every algorithm, loss, parameter setting and training history, saving a model and restoring it yields a model with the same class count, algorithm, parameters (to the six significant digits they are recorded with) and predictions: every example gets the same label and the same scores as before saving. "
 "Saving the restored model reproduces the same model content, saving does not change the predictions of the model being saved, and a restored model can be trained further.",
 ["inputs", "histories", "configurations"], "all 24 algorithms x losses x parameters x training histories x dimensions, saved at any point",
 "No test saves or loads a model.",
 ["src/sol/model/model.cc", "src/sol/model/online_model.cc", "src/sol/model/online_linear_model.cc", "src/sol/model/regularizer.cc", "src/sol/model/olm/*.cc", "src/sol/c_api.cc"],
 [("Model::Save/Load with per-class GetModelInfo/GetModelParam/SetModelInfo/SetModelParam", "src/sol/model/*.cc")],
 observe=["sol_SaveModel, sol_RestoreModel, sol_Predict, sol_GetModelParameters"])

prop("C09", "Corrupt or truncated model files are rejected cleanly",
 "Restoring a model from any byte string, in particular from a valid model file that was truncated or altered anywhere, terminates in bounded time and memory and either fails with an error indication or yields a usable model, never a crash, hang, undefined behaviour or exception escaping to the caller. "
 "A file whose first line is not the model file header, whose class and classifier counts contradict each other, that names an unknown algorithm or loss, that is cut before the end of its weights, or that holds a weight row with a missing, extra or non-numeric entry is always rejected.",
 ["inputs", "fault_sequences"], "all truncation points and mutations of saved models of every algorithm",
 "No test loads a model.",
 ["src/sol/model/model.cc", "src/sol/model/online_linear_model.cc", "src/sol/model/olm/*.cc", "external/json/jsoncpp.cpp", "src/sol/c_api.cc"],
 [("header/JSON parse and stream state checks in Model::Load", "src/sol/model/model.cc")],
 observe=["sol_RestoreModel result", "sanitizer reports"])

prop("C10", "First-order learners follow their published update rules",
 "Trained on any example stream with any valid parameters, the perceptron, online gradient descent, passive-aggressive (plain, I and II) and ALMA2 learners, binary and multiclass and with each compatible loss, hold exactly the weights and bias obtained by applying that algorithm's published update to each example in order, up to floating-point rounding. "
 "An example on which the algorithm's loss is zero (or, with lazy updating on, one that is classified correctly) leaves the weights unchanged, and learning over several passes or several training calls continues from the state reached.",
 ["inputs", "histories", "configurations"], "all example streams, losses, class counts, learning rates, power decay, bias rates, aggressiveness, laziness, cost margins and pass counts",
 "No test trains any model.",
 ["src/sol/model/olm/ogd.cc", "src/sol/model/olm/perceptron.cc", "src/sol/model/olm/pa.cc", "src/sol/model/olm/alma2.cc", "src/sol/model/online_linear_model.cc", "src/sol/model/online_model.cc"],
 [("per-algorithm Update", "src/sol/model/olm/*.cc"), ("shared iterate loop", "src/sol/model/online_model.cc")],
 observe=["weights observed through prediction", "progress callback"])

prop("C11", "Second-order and dual-averaging learners follow their update rules",
 "Trained on any example stream with any valid parameters, the second-order perceptron, confidence-weighted, ECCW, AROW, RDA, AdaGrad-FOBOS and AdaGrad-RDA learners, binary and multiclass, hold exactly the weights and bias obtained by applying that algorithm's published update (including its per-feature confidence or accumulated-gradient state) to each example in order, up to floating-point rounding. "
 "The per-feature state is carried correctly across passes, training calls and features that first appear late in the stream.",
 ["inputs", "histories", "configurations"], "all example streams, parameters, class counts, feature-appearance orders and pass counts",
 "No test trains any model.",
 ["src/sol/model/olm/sop.cc", "src/sol/model/olm/cw.cc", "src/sol/model/olm/eccw.cc", "src/sol/model/olm/arow.cc", "src/sol/model/olm/rda.cc", "src/sol/model/olm/ada_fobos.cc", "src/sol/model/olm/ada_rda.cc"],
 [("per-algorithm TrainPredict/Update/EndTrain/update_dim", "src/sol/model/olm/*.cc")],
 observe=["weights observed through prediction", "progress callback"])

prop("C12", "L1-regularised learners apply their shrinkage exactly",
 "Trained on any example stream, the truncated-gradient, FOBOS-L1, RDA-L1, enhanced RDA-L1, AdaGrad-FOBOS-L1 and AdaGrad-RDA-L1 learners hold exactly the weights given by their published update with L1 shrinkage, although shrinkage is applied lazily: a feature absent for many steps receives exactly the shrinkage it missed when it reappears or when training ends. "
 "Shrinkage never flips the sign of a weight, zero strength coincides with the unregularised algorithm, all classes and all features are treated alike, and the reported sparsity is the fraction of zero weights.",
 ["inputs", "histories", "configurations"], "all example streams with arbitrary gaps between occurrences of a feature, regularisation strengths, truncation periods, class counts and pass counts",
 "No test trains any model.",
 ["src/sol/model/olm/ogd.cc", "src/sol/model/olm/rda.cc", "src/sol/model/olm/ada_fobos.cc", "src/sol/model/olm/ada_rda.cc", "src/sol/model/regularizer.cc", "include/sol/model/regularizer.h"],
 [("last-update-time bookkeeping and truncate", "src/sol/model/olm/*.cc, include/sol/math/operator.h")],
 observe=["weights observed through prediction", "sol_model_sparsity"])

prop("C13", "Online feature selection keeps within budget and keeps the right features",
 "After every step, the feature-selection learners (PET, FOFS, SOFS, AdaGrad-FOBOS-OFS, AdaGrad-RDA-OFS) have non-zero weights on at most the configured number of features, in all classes together, and the retained ones are those ranked best by that algorithm's published criterion (largest weight magnitude, smallest variance, or largest accumulated gradient). "
 "The weights on the retained features are those of the algorithm's update rule, and both hold for any stream, budget, class count, number of passes and after reloading a saved model.",
 ["inputs", "histories", "configurations"], "all example streams, budgets from 0 to beyond the dimension, class counts, save/restore points",
 "No test trains any model.",
 ["src/sol/model/olm/ogd.cc", "src/sol/model/olm/fofs.cc", "src/sol/model/olm/arow.cc", "src/sol/model/olm/ada_fobos.cc", "src/sol/model/olm/ada_rda.cc", "include/sol/util/heap.h"],
 [("min/max heap of feature scores", "include/sol/util/heap.h"), ("per-model truncation to the heap's members", "src/sol/model/olm/*.cc")],
 observe=["weights observed through prediction", "sol_model_sparsity"])

prop("C14", "Every loss function returns its mathematical value and gradient",
 "For every label and every score vector each loss (0-1, hinge, squared and logistic, and the max-score and uniform multiclass variants of the margin losses) is non-negative and finite for finite scores and equals its mathematical definition -- max-score: the binary loss of the true class's score minus the highest other score; uniform: the average of that loss over the other classes that score at least as high as the true class, zero if there is none -- and the gradient factors it hands to the learner are the derivative of that loss with respect to each class's score. "
 "Zero loss comes with no gradient for the margin losses, and multiclass gradient factors sum to zero over the classes.",
 ["inputs", "configurations"], "all labels, class counts and finite score vectors incl. ties, margin boundaries and extreme magnitudes",
 "No test touches losses.",
 ["src/sol/loss/*.cc", "include/sol/loss/*.h"], [("loss/gradient implementations", "src/sol/loss/*.cc")],
 observe=["Loss::loss, Loss::gradient through the reflector"])

prop("C15", "Training and test accounting is exact",
 "The numbers reported while and after training (examples seen, iterations, mistakes, updates) are exact: the reported error rate is the number of examples whose prediction before learning from them differed from their label divided by the number of examples seen, the update count is the number of examples on which the learner applied its update rule (positive loss, or with lazy updating those it mislabelled), and progress callbacks arrive at the configured points and once at the end, with non-decreasing counts. "
 "Testing reports exactly the fraction of examples mislabelled, and writes one line per example, in order, with the true label, the predicted label and the scores.",
 ["inputs", "histories", "configurations"], "all streams, display schedules, pass counts, lazy and active settings, repeated train and test calls",
 "No test trains or tests a model.",
 ["src/sol/model/model.cc", "src/sol/model/online_model.cc", "src/sol/c_api.cc"],
 [("counters in OnlineModel::Train and Model::Test", "src/sol/model/online_model.cc, src/sol/model/model.cc")],
 observe=["sol_Train/sol_Test return values", "inspect callback", "test output file"])

prop("C16", "Prediction is a pure linear function with a consistent label rule",
 "A trained linear model's score for an example is its bias plus the sum of weight times value over the example's features for each class, features beyond the trained dimension contributing nothing; the label is the sign of the score in binary problems (non-negative is positive) and the first class of maximal score otherwise. "
 "Predicting or testing never changes the model: any sequence of predictions and tests returns the same answers in any order, and batch testing and single predictions agree.",
 ["inputs", "histories"], "all models, all examples (empty, unseen features, large values), all orders and repetitions of predict/test",
 "No test predicts.",
 ["src/sol/model/online_linear_model.cc", "src/sol/model/online_model.cc", "src/sol/model/model.cc", "src/sol/c_api.cc"],
 [("Predict and label rule", "src/sol/model/online_linear_model.cc, src/sol/model/model.cc")],
 observe=["sol_Predict, sol_Test"])

prop("C17", "Training outcome does not depend on how the data is delivered",
 "Training on the same examples in the same order gives the same model, the same error rate and the same reported counts regardless of file format (up to text precision), mini-batch size, buffer size, splitting the examples over several files or training calls, reading them from a file or from memory, and thread timing. "
 "The only permitted difference is rounding of values by a text format.",
 ["schedules", "configurations", "inputs"], "all deliveries of one example sequence: formats, batch and buffer sizes, file splits, in-memory sources, schedules",
 "No test trains a model.",
 ["src/sol/c_api.cc", "src/sol/pario/*.cc", "src/sol/model/online_model.cc"],
 [("DataIter abstraction under all sources", "src/sol/pario/data_iter.cc"), ("matrix readers", "src/sol/pario/csr_matrix_reader.cc, src/sol/pario/numpy_reader.cc")],
 observe=["saved model content and training return value"])

prop("C18", "Dataset tools preserve the data they process",
 "Shuffling a dataset yields a permutation of its examples, splitting it yields parts that together contain every example exactly once, no part holding more than its fair share rounded up, and concatenating files yields all their examples in order. "
 "Analysing a dataset reports its exact numbers of examples, stored features, feature dimension, classes and class-wise counts, and binarising conversion keeps labels and feature indexes and turns each stored value above the threshold into +1 and every other one into -1.",
 ["inputs", "configurations"], "all datasets, formats, fold counts, seeds and label choices",
 "No test runs the dataset tools.",
 ["src/sol/tools.cc", "tools/*.cc", "src/sol/c_api.cc"], [("tool loops over reader and writer", "src/sol/tools.cc")],
 observe=["sol_shuffle_data, sol_split_data, sol_analyze_data, sol_convert_data and the command-line tools' outputs"])

prop("C19", "Preprocessing does exactly what was asked",
 "With normalisation on, the model learns from and predicts on examples scaled to unit L1 or L2 norm exactly as if the data had been scaled beforehand; with a pre-selected feature list, exactly as if all other features were absent; and binary labels other than +1 count as -1. "
 "An example with no (or only zero) features is processed without producing NaN or infinite scores, and preprocessing never leaks from one example to the next.",
 ["inputs", "configurations"], "all examples, norms, feature lists and label encodings, in training, testing and prediction",
 "No test enables preprocessing.",
 ["src/sol/model/model.cc", "src/sol/model/online_model.cc"], [("PreProcess, LoadPreSelFeatures, label calibration", "src/sol/model/model.cc")],
 observe=["predictions and trained weights with and without preprocessing"])

prop("C20", "Failed writes are reported, never silently lost",
 "If the operating system cannot store the output (disk full, size limit, unwritable or non-existing directory), then saving a model, converting, splitting, shuffling or merging data and writing test results each return an error instead of reporting success; a reported success means the complete output is in the file. "
 "Input that is missing, or that cannot be read to its end because reading fails or it is malformed in the middle, is likewise reported as an error by the dataset tools and does not crash; a model or feature list of which only a part can be read is refused.",
 ["fault_sequences", "crash_points"], "every write/flush/close point at which the operating system may fail; all output-producing operations",
 "Tests never inject a fault.",
 ["src/sol/model/model.cc", "src/sol/pario/file_writer.cc", "src/sol/pario/data_writer.cc", "src/sol/tools.cc", "src/sol/c_api.cc", "tools/*.cc"],
 [("stream and stdio error checks", "src/sol/pario/file_writer.cc, src/sol/model/model.cc")],
 observe=["return codes/exit codes vs. bytes in the output file"])

prop("C21", "Parameters are validated, honoured and reported back",
 "Setting a parameter to a valid value takes effect and is reported back by model inspection and by the saved model; setting an unknown parameter or an invalid value is refused with an error result, without crashing and without an exception escaping to the caller, and changes nothing: the model keeps its previous settings and stays usable. "
 "Creating a model with an unknown name or an invalid class count is refused the same way.",
 ["inputs", "histories", "programs"], "all parameter names and values (numeric extremes, garbage), all algorithms, any order of settings and training",
 "No test sets parameters.",
 ["src/sol/c_api.cc", "src/sol/model/model.cc", "src/sol/model/online_model.cc", "src/sol/model/online_linear_model.cc", "src/sol/model/regularizer.cc", "src/sol/model/olm/*.cc"],
 [("SetParameter chains with Check", "src/sol/model/*.cc"), ("exception barrier", "src/sol/c_api.cc")],
 observe=["sol_CreateModel, sol_SetModelParameter, sol_GetModelParameters"])

prop("C22", "Vector, sparse-vector math and the top-K heap agree with plain arithmetic",
 "Every dense and sparse vector expression (element-wise arithmetic, scaling, dot products, norms, truncation, resizing with fill, sparse-dense mixes) yields element by element what plain arithmetic on arrays yields, for all sizes including zero and for sparse operands reaching beyond the dense operand's size, without touching memory outside the operands. "
 "Operands of different shapes are refused. After any sequence of offers, score improvements and rebuilds, the bounded heap contains exactly the best-scored elements of those offered.",
 ["inputs", "histories"], "all vectors, sizes, sparse patterns, expressions; all score histories and heap sizes",
 "test_matrix checks a few fixed expressions; the heap is not tested.",
 ["include/sol/math/*.h", "include/sol/util/heap.h"], [("expression templates", "include/sol/math/expression.h, matrix_expression.h, operator.h"), ("MinHeap/MaxHeap", "include/sol/util/heap.h")],
 observe=["results of the expression templates and heap membership"])

prop("C23", "No sequence of API calls leaks or corrupts memory",
 "Any sequence of library calls a program may make — creating models, setting parameters, loading data from files or memory, training, testing, predicting, inspecting, saving, restoring and releasing, on any data within the documented formats including empty data, empty examples, single classes, labels outside the class range and changing dimensions — runs without memory errors, undefined behaviour, uncaught exceptions or deadlock. "
 "After everything is released no memory, file descriptor or thread remains in use.",
 ["programs", "inputs", "histories"], "all call sequences and data",
 "Tests run no model code and no sanitizer.",
 ["src/sol/c_api.cc", "src/sol/model/**", "src/sol/pario/**"], [("ownership in the C API", "src/sol/c_api.cc"), ("dimension growth", "src/sol/model/online_linear_model.cc and olm/*.cc")],
 observe=["sanitizer reports, leak reports, fd and thread counts"])

prop("C24", "The command-line programs agree with the library",
 "Training, testing and converting through the command-line programs with given options produces the same models, predictions, accuracies, progress tables and datasets as the corresponding library calls, options reach the model unaltered, and a model written by one program is usable by the others. "
 "Each program exits zero exactly when it did what was asked and non-zero with an error message otherwise, for any combination of options.",
 ["inputs", "configurations", "histories"], "all option combinations and datasets",
 "No test runs the tools.",
 ["tools/*.cc", "external/cmdline/cmdline.h", "src/sol/tools.cc"], [("option parsing and main of each tool", "tools/*.cc")],
 observe=["exit status, output files and printed rates"])

prop("C25", "Independent sessions in different threads do not affect each other",
 "Sessions that share no model, data iterator or file, run at the same time in different threads of one process, each give exactly the results they give alone: the same training traces and error rates, predictions, test reports, saved and restored models, reported parameters, and converted, analysed and shuffled datasets. "
 "They do so free of data races, for any algorithms, any number of threads and any interleaving (learners that draw random numbers, active_smoothness, excepted as to the values drawn).",
 ["schedules", "configurations", "histories"], "all sets of concurrent sessions over all algorithms and file operations, all interleavings of their threads",
 "No test uses the library from more than one thread.",
 ["src/sol/c_api.cc", "src/sol/model/*.cc", "src/sol/model/olm/*.cc", "src/sol/loss/*.cc", "src/sol/pario/*.cc", "src/sol/tools.cc", "src/sol/util/reflector.cc", "external/json/jsoncpp.cpp"],
 [("no mutable state shared between objects", "src/sol, external/json")],
 observe=["results of each session alone and beside others", "ThreadSanitizer reports"])

prop("C26", "Streaming works in memory independent of the number of examples",
 "Training, testing, predicting, converting and analysing hold at any time no more memory than the model and the configured number of batches need: the amount is independent of how many examples the sources hold and of how many passes are made over them, for every algorithm and format. (Shuffling and splitting load the dataset by design.)",
 ["inputs", "configurations"], "all stream lengths and pass numbers, algorithms, formats, batch sizes and buffer numbers",
 "The tests use files of a few hundred examples, which would fit in memory whole, and do not measure memory; leak checkers do not see memory that is released at the end.",
 ["src/sol/pario/data_iter.cc", "src/sol/pario/data_read_task.cc", "include/sol/util/block_queue.h", "src/sol/model/online_model.cc", "src/sol/model/model.cc", "src/sol/tools.cc"],
 [("bounded queue of recycled mini-batches", "src/sol/pario/data_iter.cc"), ("capacity of the queue", "include/sol/util/block_queue.h")],
 observe=["bytes held by the process, counted at every allocation and release"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

"""Which monitors decide which property, with their case counts."""
from . import cli
def J(harness, sub, quick, thorough=None, **kw):
    return dict(harness=harness, sub=sub, quick=quick, thorough=thorough or quick * 20, **kw)
CHECKS = {
 "C01": dict(jobs=[J("pario", "c01_roundtrip", 4000), J("pario", "c01_foreign", 3000), J("pario", "c01_convert", 3000), J("pario", "c01_point", 3000)],
   rule="random datasets x formats; a case is one distinct dataset (and conversion chain) written or encoded, then read back through the real readers; non-trivial = distinct content hash",
   min=["almost_sorted", "boundary_rows", "point_sorts", "point_empty_clones", "crlf.svm", "crlf.csv", "explicit_zeros", "large.features", "large.rows", "roundtrip.svm", "roundtrip.bin", "roundtrip.csv", "convert.svm>bin", "convert.bin>csv", "rewinds", "foreign.bin", "unsorted_records", "examples_checked"]),
 "C02": dict(jobs=[J("pario", "c02_codec", 60000), J("pario", "c02_hostile", 60000)],
   rule="random sorted index sequences over u16/u32/u64 with gaps at every 7-bit boundary and the type maxima, coded and decoded; plus hostile byte strings for the decoder; non-trivial = distinct sequence or byte string",
   min=["indexes.u16", "indexes.u32", "indexes.u64", "hostile"]),
 "C06": dict(jobs=[J("pario", "c06_mutate", 12000, env={"ASAN_OPTIONS": "max_allocation_size_mb=256"}), J("pario", "c06_badline", 3000, env={"ASAN_OPTIONS": "max_allocation_size_mb=256"}),
                   J("pario", "c06_garbage", 5000, env={"ASAN_OPTIONS": "max_allocation_size_mb=256"})],
   rule="valid files of every format truncated, bit-flipped, spliced and token-mutated, lines malformed in a known way, arbitrary bytes; non-trivial = distinct resulting file",
   min=["long_badlines", "large.rows", "mutants.svm", "mutants.bin", "mutants.csv", "prefix_examples", "badlines", "ended_error", "ended_eof"]),
 "C07": dict(jobs=[J("pario", "c07_float", 20000), J("pario", "c07_int", 15000), J("pario", "c07_intform", 8000), J("pario", "c07_nonnumber", 6000)],
   rule="random decimal spellings placed in svm and csv files and read through the real readers, compared with strtod; integers around the type limits; junk where numbers are expected; non-trivial = distinct spelling",
   min=["intforms_read", "intforms_rejected", "numbers", "ints_fit", "ints_overflow", "nonnumbers"]),
 "C05": dict(jobs=[J("queue", "c05_small", 6000), J("queue", "c05_big", 1500), J("queue", "c05_blocking", 1500), J("queue", "c05_seq", 4000, env={"ASAN_OPTIONS": "detect_leaks=1"}),
                   J("queue", "c05_race", 1200, variant="tsan")],
   technique="recorded concurrent histories checked for FIFO linearizability offline, injected delays and spurious wake-ups, ThreadSanitizer",
   rule="random mixes of producers/consumers, single/bulk/forced/non-blocking operations, capacities and injected delays and spurious wake-ups; non-trivial = distinct order of lock acquisitions by thread (schedule hash)",
   min=["large_runs", "histories", "histories_linearized", "spurious_wakeups_injected", "blocked_enqueue", "blocked_dequeue", "contiguity_runs", "forced_dequeues", "multi_waiters"]),
 "C03": dict(jobs=[J("iter", "c03_deliver", 8000), J("iter", "c03_faulty", 3000), J("iter", "c03_deliver", 1500, variant="tsan")],
   technique="online exactly-once/order monitor on delivered batches under injected delays and spurious wake-ups (ASan/UBSan and ThreadSanitizer builds)",
   rule="random source lists (svm/bin/csv files, csr and numpy memory, empty and unreadable ones), pass counts, batch and buffer sizes, each example carrying a unique id; non-trivial = distinct (configuration, lock-acquisition order)",
   min=["numpy_reversed", "numpy_far_apart", "many_sources", "many_buffers", "large_batches", "long_sources", "wide_sources", "examples_delivered", "batches", "late_sources", "spurious_wakeups_injected", "csr_slices", "numpy_slices", "unlabelled_sources"]),
 "C04": dict(jobs=[J("iter", "c04_abandon", 6000, env={"ASAN_OPTIONS": "detect_leaks=1", "HV_LEAK": "1"}), J("iter", "c04_models", 1500, env={"ASAN_OPTIONS": "detect_leaks=1", "HV_LEAK": "1"}),
                   J("iter", "c04_abandon", 3000, variant="tsan"), J("iter", "c04_models", 800, variant="tsan"), J("iter", "c04_parallel", 600, variant="tsan")],
   technique="ThreadSanitizer, LeakSanitizer, thread/descriptor accounting and a progress watchdog under injected delays, spurious wake-ups and abandonment at every point",
   rule="random source lists incl. unreadable ones, consumer stopping after a random number of batches (incl. none), training/testing/predicting models, several iterators in parallel; non-trivial = distinct (configuration, lock-acquisition order)",
   min=["abandoned", "abandoned_before_first", "ran_to_end", "model_runs", "parallel_runs", "leak_checks"]),

 "C08": dict(jobs=[J("learn", "c08_roundtrip", 16000)],
   technique="history monitor: models of every algorithm saved and restored at random points of random training histories under ASan/UBSan, predictions, parameters, file content and further training compared bit for bit",
   rule="random algorithm x loss x parameters x training history (0-3 calls) x dimension; non-trivial = distinct (history, configuration)",
   min=["roundtrips", "continued", "untrained"]),
 "C10": dict(jobs=[J("learn", "c10", 16000)], technique="online trace monitor: every example's decision and every weight of the real learner compared with an independent double-precision reference that steps along the recorded trace (ASan/UBSan build)",
   rule="random streams for perceptron, ogd, pa, pa1, pa2, alma2 over binary/multiclass, all losses and parameters, several training calls, parameters changed between calls, lazy/active/cost-sensitive settings, some streams large in classes, features, indexes or length; non-trivial = distinct (stream, configuration); sessions whose outcome depends on rounding end inconclusive",
   min=["retunes", "retuned.loss", "retuned.norm", "retuned.lazy_update", "large.classes", "large.features", "large.indexes", "large.steps", "weights_compared", "observations", "steps", "sessions_complete", "query_rates"]),
 "C11": dict(jobs=[J("learn", "c11", 16000)], technique="online trace monitor against an independent double-precision reference, incl. save/restore in mid-history (ASan/UBSan build)",
   rule="random streams for rda, cw, eccw, arow, sop, ada-fobos, ada-rda; otherwise as C10",
   min=["retunes", "retuned.loss", "retuned.norm", "retuned.lazy_update", "large.classes", "large.features", "large.indexes", "large.steps", "weights_compared", "observations", "steps", "sessions_complete", "reloads"]),
 "C12": dict(jobs=[J("learn", "c12", 16000)], technique="online trace monitor against an independent double-precision reference with exact sparsity accounting (ASan/UBSan build)",
   rule="random streams for stg, fobos-l1, rda-l1, erda-l1, ada-fobos-l1, ada-rda-l1; otherwise as C10",
   min=["retunes", "retuned.loss", "retuned.norm", "retuned.lazy_update", "large.classes", "large.features", "large.indexes", "large.steps", "weights_compared", "observations", "steps", "sessions_complete", "sparsity_exact"]),
 "C13": dict(jobs=[J("learn", "c13", 16000)], technique="online trace monitor against an independent double-precision reference with a feature-budget invariant (ASan/UBSan build)",
   rule="random streams for pet, fofs, sofs, adafobos-ofs, adarda-ofs with budgets below, at and above the dimension; otherwise as C10",
   min=["large.budget", "retunes", "retuned.loss", "retuned.norm", "large.classes", "large.features", "large.indexes", "large.steps", "weights_compared", "observations", "steps", "sessions_complete", "budget_checked", "budget_binding", "reloads"]),
 "C15": dict(jobs=[J("learn", "c15_session", 8000), J("learn", "c15_display", 8000), J("learn", "c15_test", 8000)],
   technique="online trace monitor: progress reports, returned rates and test output checked against recounts from the observed per-example trace",
   rule="random streams, display schedules, repeated train/test calls; non-trivial = distinct (stream, configuration)",
   min=["steps", "display_reports", "display.exp", "display.step", "test_lines", "tests", "labels_out_of_range"]),
 "C16": dict(jobs=[J("learn", "c16_pure", 12000)],
   technique="online monitor on predictions: linear rule, tie rule and purity under reordering, repetition and interleaved tests (ASan/UBSan build)",
   rule="random trained and untrained models of all algorithms, test sets with unseen features, ties and zero scores; non-trivial = distinct (model, test set)",
   min=["norm.L1", "norm.L2", "tests_vs_predictions", "scores", "models", "exact_ties", "zero_scores"]),
 "C17": dict(jobs=[J("learn", "c17_delivery", 6000)],
   technique="metamorphic history comparison: the same stream delivered in different ways under injected delays and spurious wake-ups must give bit-identical models and traces",
   rule="random streams delivered through 3-6 ways (formats, in-memory matrices, batch/buffer sizes, split over sources and calls, passes vs repetition); non-trivial = distinct (stream, configuration)",
   min=["deliveries", "streams", "spurious_wakeups_injected"]),
 "C19": dict(jobs=[J("learn", "c19_prep", 12000)],
   technique="online monitor: training on raw data with filter/normalization compared step by step with the reference on independently preprocessed data",
   rule="random filters, norms, zero-valued features, empty examples, odd labels over all algorithms; non-trivial = distinct (stream, configuration, filter)",
   min=["norm_switched", "switched_unseen", "filters_replaced", "filters_refused", "via_test", "scores", "filtered", "empty_examples", "norm.L1", "norm.L2", "norm.None"]),
 "C14": dict(jobs=[J("loss", "c14_loss", 60000)],
   technique="monitor on every loss and gradient of the real loss classes: value, zero region, per-class gradients against an independent definition and against numeric slopes (ASan/UBSan build)",
   rule="random score vectors incl. ties, kinks, extreme margins, stale gradients, all labels and classes for all nine losses; non-trivial = distinct (loss, scores, label)",
   min=["losses.hinge", "losses.logistic", "losses.bool", "tied_scores", "at_kink", "zero_loss", "margin_handlers"]),
 "C22": dict(jobs=[J("math", "c22_vec", 60000), J("math", "c22_sparse", 40000), J("math", "c22_heap", 40000)],
   technique="differential monitor: every vector, matrix and sparse operation and the min-heap of the real headers checked element by element against plain loops and a sorted model (ASan/UBSan build)",
   rule="random shapes, aliasing, operand forms, sparse vectors reaching beyond the dense ones, heap histories of offers, improvements and rebuilds with ties; non-trivial = distinct (operation, operands)",
   min=["elements", "sparse_beyond", "heap_checks", "heap_evictions", "heap_growths", "heap_improvements", "heap_rebuilds"]),
 "C09": dict(jobs=[J("api", "c09_truncate", 800, env={"ASAN_OPTIONS": "max_allocation_size_mb=512"}), J("api", "c09_mutate", 6000, env={"ASAN_OPTIONS": "max_allocation_size_mb=512"})],
   technique="fault injection on model files (every region truncated, bytes and JSON altered) with a monitor on the outcome of restoring, under ASan/UBSan with a progress watchdog and an allocation bound",
   rule="saved models of random algorithms and histories, cut at every interesting and random point, or altered (bytes, numbers, keys, lines, splices); non-trivial = distinct resulting file",
   min=["contradictions.clf_num", "contradictions.loss", "cuts", "cut_after_weights", "files", "mutants", "restored", "rejected"]),
 "C25": dict(jobs=[J("par", "c25_sessions", 1200), J("par", "c25_sessions", 500, variant="tsan", shard=8)],
   technique="ThreadSanitizer, and comparison of each session's recorded results alone and beside others, under injected delays and spurious wake-ups",
   rule="2-5 random sessions (algorithms, parameters, formats, train/save/predict/test/restore/retrain/convert/analyse/shuffle), each run alone and then all at once in threads; non-trivial = distinct order of lock acquisitions",
   min=["sessions", "unsorted_rows", "alike", "random_sessions", "results_compared", "spurious_wakeups_injected"]),
 "C26": dict(jobs=[J("mem", "c26_stream", 1600, variant="plain")],
   technique="online monitor of live heap bytes (interposed allocation functions): peak over a long stream compared with the peak over a short one that already fills the batches in flight",
   rule="random algorithm, operation, format, batch size and buffer number; the same examples repeated in the file or by passes, 5000 to 12000 more in the long run; non-trivial = distinct (data, configuration)",
   min=["streams.train", "streams.test", "streams.predict", "streams.convert", "streams.analyze", "by_passes", "examples_streamed"]),
 "C24": dict(py=cli.runner("C24"),
   technique="differential monitor: instrumented command-line programs against the same library calls (models, predictions, reports byte for byte), exit status and messages for valid and invalid invocations",
   rule="random datasets x option combinations and spellings x programs; invalid invocations of every kind; non-trivial = distinct command lines",
   min=["stdin.file", "stdin.pipe", "models_compared", "progress_rows", "tests_compared", "resumed", "refused_options", "conversions", "analyses", "splits", "shuffles", "valid"]),
 "C18": dict(py=cli.runner("C18"), jobs=[J("tools", "c18_shuffle", 3000), J("tools", "c18_split", 3000), J("tools", "c18_analyze", 3000), J("tools", "c18_binarize", 3000)],
   technique="conservation monitor: every example carries an identity and what the tools write is compared with what they were given (ASan/UBSan build of the library and of the command-line programs)",
   rule="random datasets x formats x fold counts x thresholds; non-trivial = distinct (dataset, operation, options)",
   min=["large_inputs", "shuffles", "reordered", "splits", "parts", "more_parts_than_examples", "analyses", "features_counted", "conversions", "at_threshold"]),
 "C20": dict(py=cli.runner("C20"), jobs=[J("tools", "c20_faults", 3000), J("tools", "c20_inputs", 1500), J("tools", "c20_reads", 3000), J("tools", "c20_partly", 4000)],
   technique="fault injection (single failing writes and all writes failing from some point on through interposed stdio/stream writes, file size limits at every byte region, full device, unwritable and missing directories, missing inputs, reads failing in mid-file, input malformed in mid-file) with a completeness monitor on whatever was reported as success",
   rule="random datasets and models x output operation x injected fault; non-trivial = distinct (operation, data, fault)",
   min=["reads_failed.convert", "reads_failed.restore", "reads_failed.filter", "partly.malformed", "partly.readable", "complete.save", "complete.test", "complete.convert", "complete.shuffle", "complete.split", "complete.analyze", "size_limits", "sufficient_limits", "full_device", "bad_paths", "bad_types", "single_write_failures", "writes_failed_for_good", "complete.writer"]),
 "C21": dict(jobs=[J("api", "c21_params", 8000), J("api", "c21_create", 6000)],
   technique="differential history monitor: after every accepted or refused setting the reported parameters, the saved model and the behaviour of the model are compared with a twin that only received the accepted ones (ASan/UBSan build)",
   rule="random algorithms x sequences of settings (valid, boundary, garbage, unknown) interleaved with training; random names and class counts; non-trivial = distinct (algorithm, sequence)",
   min=["accepted", "refused", "last_values", "creations", "created", "not_created"]),
 "C23": dict(jobs=[J("api", "c23_calls", 6000, env={"ASAN_OPTIONS": "detect_leaks=1", "HV_LEAK": "1"}), J("api", "c23_datapoint", 8000, env={"ASAN_OPTIONS": "detect_leaks=1", "HV_LEAK": "1"})],
   technique="AddressSanitizer, UBSan and LeakSanitizer with descriptor and thread accounting over random API programs",
   rule="random sequences of C API calls over models, iterators, files and in-memory matrices incl. degenerate data; random DataPoint programs; non-trivial = distinct call sequence",
   min=["calls", "trainings", "tests", "predictions", "saves", "restores", "tool_calls", "leak_checks", "dp_ops", "sorts", "clones"]),
}
